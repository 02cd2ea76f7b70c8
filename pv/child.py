"""
Process which imports the library under given circumstances and answers
queries. Configuration is read from standard input, the answer is written
to the duplicate of standard output.
"""
import json
import os
import sys


def answer(config):
    import warnings
    warnings.simplefilter('ignore')
    sys.setrecursionlimit(5000)
    import paradigm.base  # noqa
    assert paradigm.__file__.startswith(config['root'] + os.sep), paradigm
    from pv import histories
    if config.get('sweep'):
        from pv import stdlib
        return {path: histories.query(path) for path in stdlib.callables()}
    return {path: histories.query(path) for path in config['queries']}


def answer_to(queue, config):
    queue.put(answer(config))


def perform(config):
    from pv import histories
    for name in config.get('imports', []):
        try:
            histories.import_module(name)
        except (Exception, SystemExit):
            pass
    role, _, method = config.get('role', 'main').partition('-')
    if config.get('method'):
        import multiprocessing
        multiprocessing.set_start_method(config['method'])
    if role == 'main':
        return answer(config)
    if role == 'renamed':
        import multiprocessing
        multiprocessing.current_process().name = 'Worker-1'
        return answer(config)
    if role == 'thread':
        import threading
        result = []
        thread = threading.Thread(target=lambda: result.append(answer(config)))
        thread.start()
        thread.join()
        return result[0]
    if role == 'forked':
        reader, writer = os.pipe()
        pid = os.fork()
        if not pid:
            try:
                os.close(reader)
                with os.fdopen(writer, 'w') as file:
                    json.dump(answer(config), file)
            finally:
                os._exit(0)
        os.close(writer)
        with os.fdopen(reader) as file:
            content = file.read()
        os.waitpid(pid, 0)
        return json.loads(content)
    import multiprocessing
    context = multiprocessing.get_context(method)
    # main module should be importable by children
    from pv import child
    if role == 'process':
        queue = context.SimpleQueue()
        process = context.Process(target=child.answer_to,
                                  args=(queue, config))
        process.start()
        result = queue.get()
        process.join()
        return result
    if role == 'pool':
        with context.Pool(1) as pool:
            return pool.apply(child.answer, (config,))
    if role == 'executor':
        from concurrent.futures import ProcessPoolExecutor
        with ProcessPoolExecutor(1, mp_context=context) as executor:
            return executor.submit(child.answer, config).result()
    raise ValueError(role)


def main():
    output = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    config = json.loads(sys.stdin.read())
    result = perform(config)
    json.dump(result, output)
    output.close()


if __name__ == '__main__':
    main()
