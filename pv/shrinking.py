"""Minimization of failing sequences."""
import time


def shrink_sequence(sequence, fails, *, keep_last=False, seconds=60):
    """Delta debugging: returns subsequence which still fails."""
    deadline = time.time() + seconds
    tail = sequence[-1:] if keep_last else []
    body = list(sequence[:len(sequence) - len(tail)])
    size = max(1, len(body) // 2)
    while body and time.time() < deadline:
        index, changed = 0, False
        while index < len(body) and time.time() < deadline:
            candidate = body[:index] + body[index + size:]
            if fails([*candidate, *tail]):
                body, changed = candidate, True
            else:
                index += size
        if not changed:
            if size == 1:
                break
            size = max(1, size // 2)
    return [*body, *tail]
