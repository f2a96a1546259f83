"""Generate the patched Go runtime/std files and the -overlay map.

Usage: patch.py GOROOT OUTDIR  -> writes OUTDIR/std/... and returns overlay dict.
"""
import os, sys, json

HERE = os.path.dirname(os.path.abspath(__file__))

def sub(s, old, new, count=1, path=""):
    if s.count(old) < 1:
        raise SystemExit("rt/patch.py: pattern not found in %s: %r" % (path, old[:80]))
    return s.replace(old, new, count)

def fn_body(s, sig, body, path=""):
    """Replace the whole body of the function starting with line `sig`."""
    i = s.index(sig)
    j = s.index("\n}\n", i)
    return s[:i] + sig + "\n" + body + s[j:]

def generate(goroot, out):
    src = os.path.join(goroot, "src")
    ov = {}
    def emit(rel, text):
        dst = os.path.join(out, "std", rel.replace("/", "__"))
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        old = None
        if os.path.exists(dst):
            with open(dst) as f: old = f.read()
        if old != text:
            with open(dst, "w") as f: f.write(text)
        ov[os.path.join(src, rel)] = dst
    def rd(rel):
        with open(os.path.join(src, rel)) as f: return f.read()

    with open(os.path.join(HERE, "sim.go")) as f:
        emit("runtime/sim_verif.go", f.read())

    p = "runtime/proc.go"
    s = rd(p)
    s = sub(s, "newm(sysmon, nil, -1)", "// no sysmon in simulation", path=p)
    s = sub(s, "procs := ncpu\n\tif n, ok := atoi32(gogetenv(\"GOMAXPROCS\")); ok && n > 0 {\n\t\tprocs = n\n\t}", "procs := int32(1)", path=p)
    s = sub(s, "if _g_.m.p.ptr().schedtick%61 == 0 && sched.runqsize > 0 {", "if false {", path=p)
    s = fn_body(s, "func runqempty(_p_ *p) bool {", "\treturn simS.n == 0", p)
    s = fn_body(s, "func runqput(_p_ *p, gp *g, next bool) {", "\tsimPut(gp)", p)
    s = fn_body(s, "func runqputbatch(pp *p, q *gQueue, qsize int) {", "\tfor !q.empty() {\n\t\tsimPut(q.pop())\n\t}", p)
    s = fn_body(s, "func runqget(_p_ *p) (gp *g, inheritTime bool) {", "\treturn simGet(), false", p)
    s = fn_body(s, "func runqdrain(_p_ *p) (drainQ gQueue, n uint32) {", "\tfor simS.n > 0 {\n\t\tsimS.n--\n\t\tdrainQ.pushBack(simS.q[simS.n].ptr())\n\t\tn++\n\t}\n\treturn", p)
    # jump the clock instead of stopping the M
    s = sub(s, "\t// Before we drop our P, make a snapshot of the allp slice,\n", "\tif sched.runqsize == 0 && simS.n == 0 && sched.gcwaiting == 0 && gcBlackenEnabled == 0 && simIdle(pollUntil) {\n\t\tgoto top\n\t}\n\n\t// Before we drop our P, make a snapshot of the allp slice,\n", path=p)
    emit(p, s)

    p = "runtime/stubs.go"
    s = rd(p)
    i = s.index("//go:nosplit\nfunc fastrand() uint32 {")
    j = s.index("//go:nosplit\nfunc fastrandn(n uint32) uint32 {")
    s = s[:i] + "//go:nosplit\nfunc fastrand() uint32 { return simFastrand() }\n\n" + s[j:]
    s = s.replace('"runtime/internal/math"\n', '')
    s = s.replace('"internal/goarch"\n', '') if "goarch." not in s.replace('"internal/goarch"','') else s
    emit(p, s)

    p = "runtime/runtime2.go"
    s = rd(p)
    s = sub(s, "\tgcAssistBytes int64\n", "\tgcAssistBytes int64\n\tsimNoYield int32\n\tsimHold uint64\n", path=p)
    emit(p, s)

    p = "runtime/os_linux.go"
    s = rd(p)
    s = fn_body(s, "func getRandomData(r []byte) {", "\tsimGetRandomData(r)", p)
    emit(p, s)

    p = "runtime/mgcpacer.go"
    s = rd(p)
    s = fn_body(s, "func readGOGC() int32 {", "\treturn -1", p)
    emit(p, s)

    p = "runtime/symtab.go"
    s = rd(p)
    # stack walking (stack growth) must not draw from the PRNG
    s = sub(s, "ci := fastrandn(uint32(len(cache.entries[x])))", "ci := uint32(targetpc) % uint32(len(cache.entries[x]))", path=p)
    emit(p, s)

    p = "runtime/mprof.go"
    s = rd(p)
    # sampling would draw from the PRNG depending on bytes allocated
    s = sub(s, "var MemProfileRate int = defaultMemProfileRate(512 * 1024)", "var MemProfileRate int = 0", path=p)
    emit(p, s)

    p = "runtime/time_fake.go"
    s = rd(p)
    s = fn_body(s, "func write(fd uintptr, p unsafe.Pointer, n int32) int32 {", "\treturn write1(fd, p, n)", p)
    s = sub(s, "return faketime / 1e9, int32(faketime % 1e9), faketime", "w := faketime + simS.wallOff\n\treturn w / 1e9, int32(w % 1e9), faketime", path=p)
    s = sub(s, "1257894000000000000", "1650000000000000000", path=p)
    emit(p, s)

    p = "runtime/chan.go"
    s = rd(p)
    s = sub(s, "func chansend(c *hchan, ep unsafe.Pointer, block bool, callerpc uintptr) bool {\n", "func chansend(c *hchan, ep unsafe.Pointer, block bool, callerpc uintptr) bool {\n\tSimYield()\n", path=p)
    s = sub(s, "func chanrecv(c *hchan, ep unsafe.Pointer, block bool) (selected, received bool) {\n", "func chanrecv(c *hchan, ep unsafe.Pointer, block bool) (selected, received bool) {\n\tSimYield()\n", path=p)
    s = sub(s, "func closechan(c *hchan) {\n", "func closechan(c *hchan) {\n\tSimYield()\n", path=p)
    emit(p, s)

    p = "runtime/select.go"
    s = rd(p)
    s = sub(s, "block bool) (int, bool) {\n", "block bool) (int, bool) {\n\tSimYield()\n", path=p)
    emit(p, s)

    p = "sync/runtime.go"
    s = rd(p)
    s += "\nfunc runtime_simyield()\n"
    emit(p, s)
    p = "sync/mutex.go"
    s = rd(p)
    s = sub(s, "func (m *Mutex) Lock() {\n", "func (m *Mutex) Lock() {\n\truntime_simyield()\n", path=p)
    s = sub(s, "func (m *Mutex) TryLock() bool {\n", "func (m *Mutex) TryLock() bool {\n\truntime_simyield()\n", path=p)
    s = sub(s, "\t\tm.unlockSlow(new)\n\t}\n}", "\t\tm.unlockSlow(new)\n\t}\n\truntime_simyield()\n}", path=p)
    emit(p, s)
    p = "sync/rwmutex.go"
    s = rd(p)
    s = sub(s, "func (rw *RWMutex) RLock() {\n", "func (rw *RWMutex) RLock() {\n\truntime_simyield()\n", path=p)
    s = sub(s, "func (rw *RWMutex) RUnlock() {\n", "func (rw *RWMutex) RUnlock() {\n\tdefer runtime_simyield()\n", path=p)
    emit(p, s)
    p = "sync/waitgroup.go"
    s = rd(p)
    s = sub(s, "func (wg *WaitGroup) Add(delta int) {\n", "func (wg *WaitGroup) Add(delta int) {\n\truntime_simyield()\n", path=p)
    emit(p, s)
    p = "sync/map.go"
    s = rd(p)
    for sig in ["func (m *Map) Load(key any) (value any, ok bool) {\n", "func (m *Map) Store(key, value any) {\n",
                "func (m *Map) LoadOrStore(key, value any) (actual any, loaded bool) {\n", "func (m *Map) LoadAndDelete(key any) (value any, loaded bool) {\n",
                "func (m *Map) Range(f func(key, value any) bool) {\n"]:
        s = sub(s, sig, sig + "\truntime_simyield()\n", path=p)
    emit(p, s)

    p = "net/dial.go"
    s = rd(p)
    sig = "func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n"
    s = sub(s, sig, "// SimDial and SimListen, if set, replace the network.\nvar (\n\tSimDial func(ctx context.Context, network, address string) (Conn, error)\n\tSimListen func(network, address string) (Listener, error)\n)\n\n" + sig + "\tif SimDial != nil {\n\t\treturn SimDial(ctx, network, address)\n\t}\n", path=p)
    sig = "func Listen(network, address string) (Listener, error) {\n"
    s = sub(s, sig, sig + "\tif SimListen != nil {\n\t\treturn SimListen(network, address)\n\t}\n", path=p)
    emit(p, s)

    p = "os/file.go"
    s = rd(p)
    sig = "func (f *File) Read(b []byte) (n int, err error) {\n"
    s = sub(s, sig, "// SimRead, if set, may cut a read short, or fail it.\nvar SimRead func(name string, b []byte) ([]byte, error)\n\n" + sig + "\tif SimRead != nil && f != nil {\n\t\tvar serr error\n\t\tif b, serr = SimRead(f.name, b); serr != nil {\n\t\t\treturn 0, f.wrapErr(\"read\", serr)\n\t\t}\n\t}\n", path=p)
    sig = "func (f *File) Write(b []byte) (n int, err error) {\n"
    s = sub(s, sig, "// SimFile, if set, is asked before an operation on a file: it may fail it,\n// after writing a part.\nvar SimFile func(op, name string, b []byte) ([]byte, error)\n\n" + sig + "\tif SimFile != nil && f != nil {\n\t\tif c, serr := SimFile(\"write\", f.name, b); serr != nil {\n\t\t\tn, _ = f.write(c)\n\t\t\treturn n, f.wrapErr(\"write\", serr)\n\t\t}\n\t}\n", path=p)
    sig = "func OpenFile(name string, flag int, perm FileMode) (*File, error) {\n"
    s = sub(s, sig, sig + "\tif SimFile != nil {\n\t\top := \"open\"\n\t\tif flag&(O_CREATE|O_TRUNC) != 0 {\n\t\t\top = \"create\"\n\t\t}\n\t\tif _, serr := SimFile(op, name, nil); serr != nil {\n\t\t\treturn nil, &PathError{Op: \"open\", Path: name, Err: serr}\n\t\t}\n\t}\n", path=p)
    sig = "func Rename(oldpath, newpath string) error {\n"
    s = sub(s, sig, sig + "\tif SimFile != nil {\n\t\tif _, serr := SimFile(\"rename\", newpath, nil); serr != nil {\n\t\t\treturn &LinkError{\"rename\", oldpath, newpath, serr}\n\t\t}\n\t}\n", path=p)
    emit(p, s)
    p = "os/file_unix.go"
    s = rd(p)
    sig = "func Remove(name string) error {\n"
    s = sub(s, sig, sig + "\tif SimFile != nil {\n\t\tif _, serr := SimFile(\"remove\", name, nil); serr != nil {\n\t\t\treturn &PathError{Op: \"remove\", Path: name, Err: serr}\n\t\t}\n\t}\n", path=p)
    emit(p, s)

    p = "os/proc.go"
    s = rd(p)
    sig = "func Exit(code int) {\n"
    s = sub(s, sig, "// SimExit, if set, is called first.\nvar SimExit func(code int)\n\n" + sig + "\tif SimExit != nil {\n\t\tSimExit(code)\n\t}\n", path=p)
    emit(p, s)
    p = "os/signal/signal.go"
    s = rd(p)
    sig = "func Notify(c chan<- os.Signal, sig ...os.Signal) {\n"
    s = sub(s, sig, "// SimNotify, if set, takes over.\nvar SimNotify func(c chan<- os.Signal, sig ...os.Signal)\n\n" + sig + "\tif SimNotify != nil {\n\t\tSimNotify(c, sig...)\n\t\treturn\n\t}\n", path=p)
    emit(p, s)

    p = "crypto/rand/rand_unix.go"
    s = rd(p)
    s = fn_body(s, "func (r *devReader) Read(b []byte) (n int, err error) {", "\truntime.SimRandBytes(b)\n\treturn len(b), nil", p)
    s = s.replace('\t"os"\n', '').replace('\t"sync/atomic"\n', '').replace('\t"bufio"\n', '')
    emit(p, s)
    return ov

if __name__ == "__main__":
    ov = generate(sys.argv[1], sys.argv[2])
    json.dump({"Replace": ov}, open(os.path.join(sys.argv[2], "overlay_std.json"), "w"), indent=1)
