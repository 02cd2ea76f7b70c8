"""
Server of fresh interpreters: imports the library only
and forks for each request, so that every request starts from the state
right after the import.

Runs as a separate process, requests and responses are JSON lines.
"""
import json
import os
import signal
import sys
import traceback

from pv import fingerprint, histories

OUTPUT = os.fdopen(os.dup(1), 'w')


def serve():
    import paradigm.base  # noqa
    print(json.dumps({'ready': True}), file=OUTPUT, flush=True)
    for line in sys.stdin:
        request = json.loads(line)
        print(json.dumps(answer(request)), file=OUTPUT, flush=True)


def answer(request):
    reader, writer = os.pipe()
    pid = os.fork()
    if not pid:
        status = 0
        try:
            os.close(reader)
            null = os.open(os.devnull, os.O_RDWR)
            for descriptor in (0, 1, 2):
                os.dup2(null, descriptor)
            signal.alarm(request.get('timeout', 120))
            try:
                response = {'result': histories.perform(request['ops'])}
            except BaseException as error:
                response = {'error': ''.join(
                        traceback.format_exception(error)
                )[-4000:]}
            with os.fdopen(writer, 'w') as file:
                json.dump(response, file)
        except BaseException:
            status = 1
        finally:
            os._exit(status)
    os.close(writer)
    with os.fdopen(reader) as file:
        content = file.read()
    _, status = os.waitpid(pid, 0)
    try:
        return json.loads(content)
    except ValueError:
        return {'died': status}


if __name__ == '__main__':
    assert fingerprint
    serve()
