"""Places in a program from which a function can be called: plain code, threads, coroutines, handlers."""
import asyncio
import concurrent.futures
import contextvars
import decimal
import functools
import gc
import sys
import threading


def in_thread(f, **k):
    out = []

    def go():
        try:
            out.append(("ok", f()))
        except BaseException as e:
            out.append(("error", e))
    t = threading.Thread(target=go, **k)
    t.start()
    t.join()
    kind, v = out[0]
    if kind == "error":
        raise v
    return v


def in_pool(f):
    with concurrent.futures.ThreadPoolExecutor(2) as p:
        return p.submit(f).result()


def in_coroutine(f):
    async def go():
        await asyncio.sleep(0)
        return f()
    return asyncio.run(go())


def in_executor(f):
    async def go():
        return await asyncio.get_running_loop().run_in_executor(None, f)
    return asyncio.run(go())


def in_except(f):
    try:
        raise KeyError("type")
    except KeyError:
        return f()


def in_finally(f):
    try:
        try:
            raise ValueError("x")
        finally:
            out = f()
    except ValueError:
        return out


def in_generator(f):
    def g():
        yield f()
    return next(g())


def deep(n):
    def place(f):
        def go(k):
            return f() if k == 0 else go(k - 1)
        return go(n)
    return place


def in_new_context(f):
    return contextvars.Context().run(f)


def in_decimal(f):
    with decimal.localcontext() as c:
        c.prec = 2
        return f()


def in_comparison(f):
    out = []

    def key(x):
        if not out:
            out.append(f())
        return x
    sorted([2, 1], key=key)
    return out[0]


def in_class(f):
    class A:
        x = f()
    return A.x


def without_gc(f):
    on = gc.isenabled()
    gc.disable()
    try:
        return f()
    finally:
        if on:
            gc.enable()


def with_trace(f):
    old = sys.gettrace()
    sys.settrace(lambda *a: None)
    try:
        return f()
    finally:
        sys.settrace(old)


def in_exec(f):
    ns = {"f": f}
    exec("out = f()", ns)
    return ns["out"]


PLACES = {
    "plain": lambda f: f(), "thread": in_thread, "daemon thread": lambda f: in_thread(f, daemon=True), "named thread": lambda f: in_thread(f, name="MainThread"), "pool": in_pool, "coroutine": in_coroutine, "executor": in_executor,
    "except": in_except, "finally": in_finally, "generator": in_generator, "lambda": lambda f: (lambda: f())(), "partial": lambda f: functools.partial(f)(), "deep 1": deep(1), "deep 20": deep(20), "deep 100": deep(100), "new context": in_new_context, "decimal context": in_decimal,
    "key function": in_comparison, "class body": in_class, "without gc": without_gc, "with trace": with_trace, "exec": in_exec, "thread in a thread": lambda f: in_thread(lambda: in_thread(f)), "except in a thread": lambda f: in_thread(lambda: in_except(f)),
}
