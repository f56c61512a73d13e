"""Concurrent harnesses: scheduling points in the linked IR, and a native
build of that same IR for deterministic replay."""
import os, re, subprocess

HOOK = re.compile(r"8hash_one|19hashmap_random_keys|9panic_fmt$|18panic_nounwind_fmt$|___rust_(alloc|dealloc|realloc|alloc_zeroed)$|"
                  r"handle_alloc_error|no_alloc_shim")
POINT = re.compile(r"^\s+(%\S+ = )?(cmpxchg|store atomic)\b")
DEF = re.compile(r'^define .*?@("[^"]*"|[\w.$]+)\(')


def instrument(src, dst):
    """A scheduling point before every lock acquisition (compare-and-exchange)
    and atomic store."""
    n, skip, has = 0, False, False
    with open(src) as f, open(dst, "w") as g:
        for l in f:
            if l.startswith("define "):
                m = DEF.match(l)
                skip = bool(m and HOOK.search(m.group(1).strip('"')))
            elif l.startswith("declare void @sym_yield("):
                has = True
            elif not skip and POINT.match(l):
                g.write("  call void @sym_yield()\n")
                n += 1
            g.write(l)
        if not has:
            g.write("\ndeclare void @sym_yield()\n")
    return n


RT = [(r"_R\w*12___rust_alloc", "rt_alloc"), (r"_R\w*19___rust_alloc_zeroed", "rt_alloc_zeroed"), (r"_R\w*14___rust_dealloc", "rt_dealloc"),
      (r"_R\w*14___rust_realloc", "rt_realloc"), (r"_R\w*rust_no_alloc_shim_is_unstable\w*", "rt_nop"),
      (r"_R\w*11RandomState\w*8hash_one\w*", "rt_hash"), (r"_R\w*19hashmap_random_keys", "rt_keys"),
      (r"_R\w*4core9panicking9panic_fmt", "rt_panic"), (r"_R\w*4core9panicking18panic_nounwind_fmt", "rt_panic"),
      (r"_R\w*18handle_alloc_error\w*", "rt_abort"),
      ("syscall|pthread_create|pthread_join|pthread_self|write|writev|getrandom", "rt_"),
      ("gettid", "rt_pthread_self"), ("clock_gettime", "rt_"),
      ("__cxa_thread_atexit_impl|pthread_attr_init|pthread_attr_destroy|pthread_attr_setstacksize|pthread_attr_getstack|pthread_attr_getguardsize|"
       "pthread_attr_setguardsize|pthread_getattr_np|pthread_setname_np|pthread_detach|sched_yield|sigaction|sigaltstack|mprotect|dlsym|getenv|"
       "signal|sysconf", "rt_zero"),
      ("abort", "rt_abort")]
RT = [(re.compile("^(" + a + ")$"), b) for a, b in RT]
NAME = re.compile(r'@("[^"]*"|[\w.$]+)')


def native(src, work, entries, bindir, rt):
    """Compiles the IR with the runtime in rt.c to a replay program."""
    cache = {}
    defined = set()
    with open(src) as f:
        for l in f:
            if l.startswith("define "):
                m = DEF.match(l)
                if m:
                    defined.add(m.group(1))

    def name(m):
        n = m.group(1)
        if n not in cache:
            r = n
            for p, to in RT:
                if p.match(n):
                    if n.startswith("_R") or n not in defined:
                        r = to + n if to == "rt_" else to
                    break
            cache[n] = r
        return "@" + cache[n]

    ll, o, exe = work + "-n.ll", work + "-n.o", work
    declared, body = set(), False
    with open(src) as f, open(ll, "w") as g:
        for l in f:
            if body:
                body = l.rstrip() != "}"
                continue
            d = DEF.match(l) if l.startswith("define ") else None
            if d and HOOK.search(d.group(1)) and any(p.match(d.group(1)) for p, _ in RT):
                body = True     # replaced by the runtime
                continue
            if l.startswith("declare ") and "@" in l:
                n = NAME.search(l)
                if n and name(n)[1:].startswith("rt_"):
                    continue
            g.write(NAME.sub(name, l) if "@" in l else l)
        used = sorted({v for v in cache.values() if v.startswith("rt_")})
        for u in used:
            g.write(f"declare void @{u}()\n")
    e = work + "-e.c"
    with open(e, "w") as g:
        g.write("typedef void (*Fn)(void); struct E { const char *n; Fn f; };\n")
        for x in entries:
            g.write(f"void {x}(void);\n")
        g.write("struct E rt_entries[] = {" + ",".join('{"%s", %s}' % (x, x) for x in entries) + ",{0,0}};\n")
    run = lambda c: subprocess.run(c, check=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    try:
        run([f"{bindir}/llc", "-O1", "--filetype=obj", "--relocation-model=pic", ll, "-o", o])
        run(["gcc", "-O1", "-g0", "-w", rt, e, o, "-o", exe, "-lpthread", "-lm", "-ldl", "-lgcc_s"])
    except subprocess.CalledProcessError as x:
        raise RuntimeError(x.stderr.decode(errors="replace")[-3000:])
    finally:
        for x in (ll, o, e):
            if os.path.exists(x):
                os.remove(x)
    return exe


if __name__ == "__main__":
    import sys
    a = sys.argv
    print(instrument(a[1], a[2]))
    ents = a[4].split(",")
    native(a[2], a[3], ents, a[5], os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "rt", "rt.c"))
