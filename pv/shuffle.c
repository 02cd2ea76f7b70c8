/* Makes order of directories listings random (preloaded by checks). */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <pthread.h>
#include <stdlib.h>
#include <string.h>

#undef readdir
#undef readdir64

struct listing {
  DIR *directory;
  struct dirent64 *entries;
  size_t count, position;
  struct listing *next;
};

static struct listing *listings;
static pthread_mutex_t mutex = PTHREAD_MUTEX_INITIALIZER;
static unsigned long long state;

static int compare(const void *left, const void *right) {
  return strcmp(((const struct dirent64 *)left)->d_name,
                ((const struct dirent64 *)right)->d_name);
}

static unsigned below(unsigned limit) {
  if (!state) {
    const char *seed = getenv("PV_ORDER");
    state = (seed ? strtoull(seed, NULL, 10) : 0) * 2862933555777941757ULL
            + 3037000493ULL;
  }
  state = state * 6364136223846793005ULL + 1442695040888963407ULL;
  return (state >> 33) % limit;
}

static struct listing *find(DIR *directory) {
  struct listing *result;
  for (result = listings; result; result = result->next)
    if (result->directory == directory) return result;
  return NULL;
}

static struct listing *make(DIR *directory) {
  static struct dirent64 *(*original)(DIR *);
  struct dirent64 *entry;
  struct listing *result = calloc(1, sizeof *result);
  size_t capacity = 0, index;
  if (!original) original = dlsym(RTLD_NEXT, "readdir64");
  while ((entry = original(directory))) {
    if (result->count == capacity) {
      capacity = capacity ? 2 * capacity : 64;
      result->entries =
          realloc(result->entries, capacity * sizeof *result->entries);
    }
    memset(&result->entries[result->count], 0, sizeof *entry);
    memcpy(&result->entries[result->count++], entry, entry->d_reclen);
  }
  if (result->count)
    qsort(result->entries, result->count, sizeof *result->entries, compare);
  for (index = result->count; index > 1; --index) {
    struct dirent64 swapped;
    unsigned other = below(index);
    swapped = result->entries[index - 1];
    result->entries[index - 1] = result->entries[other];
    result->entries[other] = swapped;
  }
  result->directory = directory;
  result->next = listings;
  return listings = result;
}

struct dirent64 *readdir64(DIR *directory) {
  struct listing *listing;
  struct dirent64 *result = NULL;
  pthread_mutex_lock(&mutex);
  listing = find(directory);
  if (!listing) listing = make(directory);
  if (listing->position < listing->count)
    result = &listing->entries[listing->position++];
  pthread_mutex_unlock(&mutex);
  return result;
}

struct dirent *readdir(DIR *directory) {
  return (struct dirent *)readdir64(directory);
}

static void forget(DIR *directory) {
  struct listing **link, *listing;
  pthread_mutex_lock(&mutex);
  for (link = &listings; (listing = *link); link = &listing->next)
    if (listing->directory == directory) {
      *link = listing->next;
      free(listing->entries);
      free(listing);
      break;
    }
  pthread_mutex_unlock(&mutex);
}

void rewinddir(DIR *directory) {
  static void (*original)(DIR *);
  if (!original) original = dlsym(RTLD_NEXT, "rewinddir");
  forget(directory);
  original(directory);
}

int closedir(DIR *directory) {
  static int (*original)(DIR *);
  if (!original) original = dlsym(RTLD_NEXT, "closedir");
  forget(directory);
  return original(directory);
}
