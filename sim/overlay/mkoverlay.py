#!/usr/bin/env python3
"""Generates the build overlay for the simulator.

usage: mkoverlay.py GOROOT OUTDIR   -> writes patched std files under OUTDIR/std and OUTDIR/std.json

Every patch is an anchored textual edit of the installed standard library; a missing or ambiguous
anchor is an error (exit 3), never silently skipped.
"""
import json, os, re, sys

goroot, out = sys.argv[1], sys.argv[2]
src = os.path.join(goroot, "src")
dst = os.path.join(out, "std")
here = os.path.dirname(os.path.abspath(__file__))
files, repl = {}, {}

def load(p):
    if p not in files:
        files[p] = open(os.path.join(src, p)).read()
    return files[p]

def sub(p, old, new, count=1):
    s = load(p)
    if s.count(old) != count:
        print("mkoverlay: anchor in %s occurs %d times, want %d: %r" % (p, s.count(old), count, old[:90]), file=sys.stderr)
        sys.exit(3)
    files[p] = s.replace(old, new)

def infunc(p, header, old, new):
    """replace the first `old` after the unique line `header`"""
    s = load(p)
    if s.count(header) != 1:
        print("mkoverlay: header in %s occurs %d times: %r" % (p, s.count(header), header), file=sys.stderr)
        sys.exit(3)
    i = s.index(header)
    j = s.find(old, i)
    end = s.find("\n}\n", i)
    if j < 0 or j > end:
        print("mkoverlay: %r not in %r of %s" % (old, header, p), file=sys.stderr)
        sys.exit(3)
    files[p] = s[:j] + new + s[j+len(old):]

def add(p, srcname):
    files[p] = open(os.path.join(here, srcname)).read()

# ---- runtime ----------------------------------------------------------------------------------
R = "runtime/"
add(R + "sim_rt.go", "runtime_sim.go.txt")
sub(R + "runtime2.go", "\tbubble  *synctestBubble\n", "\tbubble  *synctestBubble\n\tsimnode int32\n\tsimhome int32\n\tsimprio uint64\n\tsimid uint64\n")
sub(R + "runtime2.go", "func (w waitReason) isIdleInSynctest() bool {\n", """func (w waitReason) isIdleInSynctest() bool {
	if simOn {
		switch w {
		case waitReasonSyncMutexLock, waitReasonSyncRWMutexRLock, waitReasonSyncRWMutexLock, waitReasonSemacquire,
			waitReasonSyncWaitGroupWait, waitReasonChanReceive, waitReasonChanSend, waitReasonSelect:
			return true
		}
	}
""")
# scheduler: goroutines of the bubble live in the simulator's queue
infunc(R + "proc.go", "func runqput(pp *p, gp *g, next bool) {\n", "\tif !haveSysmon && next {\n", "\tif simOn && gp.bubble != nil {\n\t\tsimPut(gp)\n\t\treturn\n\t}\n\tif !haveSysmon && next {\n")
infunc(R + "proc.go", "func globrunqput(gp *g) {\n", "\tassertLockHeld(&sched.lock)\n", "\tassertLockHeld(&sched.lock)\n\tif simOn && gp.bubble != nil {\n\t\tsimPut(gp)\n\t\treturn\n\t}\n")
infunc(R + "proc.go", "func globrunqputhead(gp *g) {\n", "\tassertLockHeld(&sched.lock)\n", "\tassertLockHeld(&sched.lock)\n\tif simOn && gp.bubble != nil {\n\t\tsimPut(gp)\n\t\treturn\n\t}\n")
infunc(R + "proc.go", "func findRunnable() (gp *g, inheritTime, tryWakeP bool) {\n", "\t// now and pollUntil are saved for work stealing later,\n", "\tif simOn {\n\t\tif gp := simPick(); gp != nil {\n\t\t\treturn gp, false, false\n\t\t}\n\t}\n\n\t// now and pollUntil are saved for work stealing later,\n")
sub(R + "proc.go", "\t\tnewg.bubble = callergp.bubble\n", "\t\tnewg.bubble = callergp.bubble\n\t\tsimNewG(newg, callergp)\n")
sub(R + "proc.go", "\tgp.bubble = nil\n\tgp.fipsOnlyBypass = false\n", "\tgp.bubble = nil\n\tgp.simnode = 0\n\tgp.simhome = 0\n\tgp.fipsOnlyBypass = false\n")
sub(R + "proc.go", "\tif haveSysmon {\n\t\tsystemstack(func() {\n\t\t\tnewm(sysmon, nil, -1)\n", "\tif haveSysmon && !simOn {\n\t\tsystemstack(func() {\n\t\t\tnewm(sysmon, nil, -1)\n")
sub(R + "proc.go", "\tgoenvs()\n", "\tgoenvs()\n\tsimInit()\n")
# randomness
infunc(R + "rand.go", "func rand() uint64 {\n", "\tmp := getg().m\n", "\tif simOn {\n\t\treturn simRand()\n\t}\n\tmp := getg().m\n")
s = load(R + "rand.go")
a = s.index("\tseed := &globalRand.seed\n"); b = s.index("\tglobalRand.state.Init(*seed)\n")
files[R + "rand.go"] = s[:a] + "\tseed := &globalRand.seed\n\tfor i := range seed {\n\t\tseed[i] = byte(i*37 + 11)\n\t}\n" + s[b:]
sub(R + "time.go", "t.rand = cheaprand()", "t.rand = simCheap()")
sub(R + "select.go", "cheaprandn(", "simCheapn(")
# time
infunc(R + "time.go", "func time_runtimeNow() (sec int64, nsec int32, mono int64) {\n", "\treturn time_now()\n", "\tif simOn {\n\t\treturn simNow(simBase)\n\t}\n\treturn time_now()\n")
infunc(R + "time.go", "func time_runtimeNow() (sec int64, nsec int32, mono int64) {\n", "\t\treturn sec, nsec, 0\n", "\t\tif simOn {\n\t\t\treturn simNow(bubble.now)\n\t\t}\n\t\treturn sec, nsec, 0\n")
infunc(R + "time.go", "func time_runtimeNano() int64 {\n", "\treturn nanotime()\n", "\tif simOn {\n\t\treturn simBase\n\t}\n\treturn nanotime()\n")
sub(R + "sema.go", "func internal_sync_nanotime() int64 {\n\treturn nanotime()\n", "func internal_sync_nanotime() int64 {\n\treturn time_runtimeNano()\n")
sub(R + "synctest.go", "\tbubble.now = synctestBaseTime\n", "\tbubble.now = synctestBaseTime\n\tif simOn {\n\t\tbubble.now = simBase\n\t}\n")
sub(R + "synctest.go", "\t\tbubble.now = next\n", "\t\tbubble.now = next\n\t\tsimTimeAdvanced()\n")
# node identity of timers
infunc(R + "time.go", "type timer struct {\n", "\tmu mutex\n", "\tmu mutex\n\tsimnode int32\n")
infunc(R + "time.go", "func newTimer(when, period int64, f func(arg any, seq uintptr, delay int64), arg any, c *hchan) *timeTimer {\n", "\tt.timer.init(nil, nil)\n", "\tt.timer.init(nil, nil)\n\tt.timer.simnode = getg().simnode\n")
infunc(R + "time.go", "func (t *timer) unlockAndRun(now int64, bubble *synctestBubble) {\n", "\t\tgp.bubble = bubble\n", "\t\tgp.bubble = bubble\n\t\tgp.simnode = t.simnode\n")
infunc(R + "time.go", "func (t *timer) unlockAndRun(now int64, bubble *synctestBubble) {\n", "\t\tgp.bubble = nil\n", "\t\tgp.bubble = nil\n\t\tgp.simnode = 0\n")
# crash reports name the simulated node
infunc(R + "panic.go", "func fatalpanic(msgs *_panic) {\n", "\tgp := getg()\n", "\tgp := getg()\n\tsimReport()\n")
infunc(R + "panic.go", "func fatal(s string) {\n", "\tp := getg()._panic\n", "\tsimReport()\n\tp := getg()._panic\n")

for f in ("sync_fatal", "maps_fatal", "internal_sync_fatal"):
    infunc(R + "panic.go", "func %s(s string) {\n" % f, "\tfatal(s)\n", "\tsimGone()\n\tfatal(s)\n")
sub(R + "panic.go", "\tpreprintpanics(&p)\n\n\tfatalpanic(&p) ", "\tsimGone()\n\tpreprintpanics(&p)\n\n\tfatalpanic(&p) ")

# a preemption point inside map writes, so that unsynchronised maps are found out
M = "internal/runtime/maps/"
files[M + "sim_maps.go"] = """package maps

import _ "unsafe"

//go:linkname simMapYield
func simMapYield()
"""
for f, n in (("map.go", 3), ("runtime.go", 1), ("runtime_fast32.go", 2), ("runtime_fast64.go", 2), ("runtime_faststr.go", 1)):
    sub(M + f, "\tm.writing ^= 1 // toggle, see comment on writing\n", "\tm.writing ^= 1 // toggle, see comment on writing\n\tsimMapYield()\n", n)

# ---- internal/poll ----------------------------------------------------------------------------
P = "internal/poll/"
files[P + "sim_fd.go"] = """package poll

import (
	"syscall"
	"time"
)

// SimFD is a simulated socket; the methods return the errors the real FD methods would.
type SimFD interface {
	Read(p []byte) (int, error)
	Write(p []byte) (int, error)
	Close() error
	Shutdown(how int) error
	SetDeadline(t time.Time, mode int) error
	RawFD() uintptr
	WaitReadable() error
	Linger(sec int)
}

var _ = syscall.EINVAL
"""
sub(P + "fd_unix.go", "type FD struct {\n", "type FD struct {\n\tSim SimFD\n\n")
def guard(p, header, code):
    sub(p, header, header + code)
U = P + "fd_unix.go"
guard(U, "func (fd *FD) Close() error {\n", "\tif fd.Sim != nil {\n\t\treturn fd.Sim.Close()\n\t}\n")
guard(U, "func (fd *FD) Read(p []byte) (int, error) {\n", "\tif fd.Sim != nil {\n\t\treturn fd.Sim.Read(p)\n\t}\n")
guard(U, "func (fd *FD) Write(p []byte) (int, error) {\n", "\tif fd.Sim != nil {\n\t\treturn fd.Sim.Write(p)\n\t}\n")
guard(U, "func (fd *FD) RawRead(f func(uintptr) bool) error {\n", "\tif fd.Sim != nil {\n\t\tfor !f(fd.Sim.RawFD()) {\n\t\t\tif err := fd.Sim.WaitReadable(); err != nil {\n\t\t\t\treturn err\n\t\t\t}\n\t\t}\n\t\treturn nil\n\t}\n")
guard(U, "func (fd *FD) RawWrite(f func(uintptr) bool) error {\n", "\tif fd.Sim != nil {\n\t\tpanic(\"sim: RawWrite\")\n\t}\n")
guard(U, "func (fd *FD) Dup() (int, string, error) {\n", "\tif fd.Sim != nil {\n\t\tpanic(\"sim: Dup\")\n\t}\n")
guard(U, "func (fd *FD) WaitWrite() error {\n", "\tif fd.Sim != nil {\n\t\treturn nil\n\t}\n")
guard(P + "fd_posix.go", "func (fd *FD) Shutdown(how int) error {\n", "\tif fd.Sim != nil {\n\t\treturn fd.Sim.Shutdown(how)\n\t}\n")
guard(P + "fd_posix.go", "func (fd *FD) RawControl(f func(uintptr)) error {\n", "\tif fd.Sim != nil {\n\t\tf(fd.Sim.RawFD())\n\t\treturn nil\n\t}\n")
guard(P + "fd_poll_runtime.go", "func (fd *FD) SetDeadline(t time.Time) error {\n", "\tif fd.Sim != nil {\n\t\treturn fd.Sim.SetDeadline(t, 'r'+'w')\n\t}\n")
guard(P + "fd_poll_runtime.go", "func (fd *FD) SetReadDeadline(t time.Time) error {\n", "\tif fd.Sim != nil {\n\t\treturn fd.Sim.SetDeadline(t, 'r')\n\t}\n")
guard(P + "fd_poll_runtime.go", "func (fd *FD) SetWriteDeadline(t time.Time) error {\n", "\tif fd.Sim != nil {\n\t\treturn fd.Sim.SetDeadline(t, 'w')\n\t}\n")
guard(P + "sockopt.go", "func (fd *FD) SetsockoptInt(level, name, arg int) error {\n", "\tif fd.Sim != nil {\n\t\treturn nil\n\t}\n")
guard(P + "sockopt.go", "func (fd *FD) SetsockoptLinger(level, name int, l *syscall.Linger) error {\n", "\tif fd.Sim != nil {\n\t\tif l.Onoff != 0 {\n\t\t\tfd.Sim.Linger(int(l.Linger))\n\t\t} else {\n\t\t\tfd.Sim.Linger(-1)\n\t\t}\n\t\treturn nil\n\t}\n")
guard(P + "sockopt.go", "func (fd *FD) GetsockoptInt(level, name int) (int, error) {\n", "\tif fd.Sim != nil {\n\t\treturn 0, nil\n\t}\n")
guard(P + "writev.go", "func (fd *FD) Writev(v *[][]byte) (int64, error) {\n", """	if fd.Sim != nil {
		var all []byte
		for _, b := range *v {
			all = append(all, b...)
		}
		n, err := fd.Sim.Write(all)
		consume(v, int64(n))
		return int64(n), err
	}
""")

# ---- net --------------------------------------------------------------------------------------
N = "net/"
files[N + "sim_net.go"] = """package net

import (
	"context"
	"internal/poll"
	"syscall"
)

// SimSocket is a simulated connected socket, SimAcceptor a simulated listening one.
type SimSocket = poll.SimFD

type SimAcceptor interface {
	SimSocket
	Accept() (s SimSocket, laddr, raddr *TCPAddr, err error)
}

type SimNetwork interface {
	Dial(ctx context.Context, laddr, raddr *TCPAddr) (s SimSocket, la *TCPAddr, err error)
	Listen(network string, laddr *TCPAddr) (s SimAcceptor, la *TCPAddr, err error)
	Lookup(ctx context.Context, host string) ([]IPAddr, error)
}

var Sim SimNetwork

func simSocket(ctx context.Context, network string, sotype int, laddr, raddr sockaddr) (*netFD, error) {
	if sotype != syscall.SOCK_STREAM || len(network) < 3 || network[:3] != "tcp" {
		panic("sim: unsupported network " + network)
	}
	la, _ := laddr.(*TCPAddr)
	ra, _ := raddr.(*TCPAddr)
	fd := &netFD{family: syscall.AF_INET, sotype: sotype, net: network}
	if ra == nil {
		s, a, err := Sim.Listen(network, la)
		if err != nil {
			return nil, err
		}
		fd.pfd.Sim = s
		fd.laddr = a
		return fd, nil
	}
	s, a, err := Sim.Dial(ctx, la, ra)
	if err != nil {
		if err == context.Canceled || err == context.DeadlineExceeded {
			err = mapErr(err)
		}
		return nil, err
	}
	fd.pfd.Sim = s
	fd.laddr, fd.raddr, fd.isConnected = a, ra, true
	return fd, nil
}

func (fd *netFD) simAccept() (*netFD, error) {
	s, la, ra, err := fd.pfd.Sim.(SimAcceptor).Accept()
	if err != nil {
		return nil, err
	}
	nfd := &netFD{family: fd.family, sotype: fd.sotype, net: fd.net, isConnected: true, laddr: la, raddr: ra}
	nfd.pfd.Sim = s
	return nfd, nil
}
"""
sub(N + "sock_posix.go", "\ts, err := sysSocket(family, sotype, proto)\n", "\tif Sim != nil {\n\t\treturn simSocket(ctx, net, sotype, laddr, raddr)\n\t}\n\ts, err := sysSocket(family, sotype, proto)\n")
sub(N + "fd_unix.go", "func (fd *netFD) accept() (netfd *netFD, err error) {\n", "func (fd *netFD) accept() (netfd *netFD, err error) {\n\tif fd.pfd.Sim != nil {\n\t\treturn fd.simAccept()\n\t}\n")
infunc(N + "tcpsock_posix.go", "func (c *TCPConn) readFrom(r io.Reader) (int64, error) {\n", "\tif n, err, handled := spliceFrom", "\tif c.fd.pfd.Sim != nil {\n\t\treturn genericReadFrom(c, r)\n\t}\n\tif n, err, handled := spliceFrom")
infunc(N + "tcpsock_posix.go", "func (c *TCPConn) writeTo(w io.Writer) (int64, error) {\n", "\tif n, err, handled := spliceTo", "\tif c.fd.pfd.Sim != nil {\n\t\treturn genericWriteTo(c, w)\n\t}\n\tif n, err, handled := spliceTo")

sub(N + "lookup.go", "\ttrace, _ := ctx.Value(nettrace.TraceKey{}).(*nettrace.Trace)\n\tif trace != nil && trace.DNSStart != nil {\n", "\tif Sim != nil {\n\t\treturn Sim.Lookup(ctx, host)\n\t}\n\ttrace, _ := ctx.Value(nettrace.TraceKey{}).(*nettrace.Trace)\n\tif trace != nil && trace.DNSStart != nil {\n")
sub(N + "lookup.go", "\treturn r.lookupHost(ctx, host)\n", "\tif Sim != nil {\n\t\tips, err := Sim.Lookup(ctx, host)\n\t\tfor _, a := range ips {\n\t\t\taddrs = append(addrs, a.String())\n\t\t}\n\t\treturn addrs, err\n\t}\n\treturn r.lookupHost(ctx, host)\n")
infunc(N + "ipsock_posix.go", "func (p *ipStackCapabilities) probe() {\n", "\tswitch runtime.GOOS {\n\tcase \"js\"", "\tif Sim != nil {\n\t\tp.ipv4Enabled, p.ipv6Enabled, p.ipv4MappedIPv6Enabled = true, true, true\n\t\treturn\n\t}\n\tswitch runtime.GOOS {\n\tcase \"js\"")

# ---- syscall, os, crypto ----------------------------------------------------------------------
sub("syscall/syscall_unix.go", "func Read(fd int, p []byte) (n int, err error) {\n", "// SimRead serves reads of simulated descriptors.\nvar SimRead func(fd int, p []byte) (n int, err error)\n\nfunc Read(fd int, p []byte) (n int, err error) {\n\tif fd >= 1<<30 && SimRead != nil {\n\t\treturn SimRead(fd, p)\n\t}\n")
sub("os/proc.go", "func Exit(code int) {\n", "func Exit(code int) {\n\tif SimExit != nil {\n\t\tSimExit(code)\n\t}\n")
sub("os/proc.go", "func runtime_beforeExit(exitCode int) // implemented in runtime\n", "func runtime_beforeExit(exitCode int) // implemented in runtime\n\n// SimExit, when set, is told of an exit first and may end the goroutine.\nvar SimExit func(code int)\n\n// SimWrite, when set, gets what is written to standard output and error.\nvar SimWrite func(fd int, b []byte) (bool, int, error)\n")
infunc("os/file.go", "func (f *File) Write(b []byte) (n int, err error) {\n", "\tn, e := f.write(b)\n", "\tif SimWrite != nil && (f == Stdout || f == Stderr) {\n\t\tfd := 1\n\t\tif f == Stderr {\n\t\t\tfd = 2\n\t\t}\n\t\tif ok, n, err := SimWrite(fd, b); ok {\n\t\t\tif err != nil {\n\t\t\t\terr = f.wrapErr(\"write\", err)\n\t\t\t}\n\t\t\treturn n, err\n\t\t}\n\t}\n\tn, e := f.write(b)\n")
sub("crypto/internal/sysrand/rand.go", "func Read(b []byte) {\n", "func Read(b []byte) {\n\tif simOnRand() {\n\t\tfor i := range b {\n\t\t\tb[i] = byte(simRand64() >> 24)\n\t\t}\n\t\treturn\n\t}\n")
sub("crypto/internal/sysrand/rand.go", "var testingOnlyFailRead bool\n", "var testingOnlyFailRead bool\n\n//go:linkname simRand64 runtime.simRandPub\nfunc simRand64() uint64\n\n//go:linkname simOnRand runtime.simOnPub\nfunc simOnRand() bool\n")

# ---- write ------------------------------------------------------------------------------------
for p, s in files.items():
    o = os.path.join(dst, p)
    os.makedirs(os.path.dirname(o), exist_ok=True)
    if not os.path.exists(o) or open(o).read() != s:
        open(o, "w").write(s)
    repl[os.path.join(src, p)] = o
json.dump({"Replace": repl}, open(os.path.join(out, "std.json"), "w"), indent=1)
