package main

// A FUSE kernel stand-in. btrfscue mounts by running fusermount and speaking
// the FUSE protocol over the descriptor it gets back. Here fusermount is this
// program, and the descriptor is one end of a socket pair whose other end the
// harness holds: it plays the kernel, and nothing is ever mounted.

import (
	"bytes"
	"fmt"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

const (
	fLookup       = 1
	fForget       = 2
	fGetattr      = 3
	fSetattr      = 4
	fReadlink     = 5
	fSymlink      = 6
	fMknod        = 8
	fMkdir        = 9
	fUnlink       = 10
	fRmdir        = 11
	fRename       = 12
	fLink         = 13
	fOpen         = 14
	fRead         = 15
	fWrite        = 16
	fStatfs       = 17
	fRelease      = 18
	fFsync        = 20
	fSetxattr     = 21
	fGetxattr     = 22
	fListxattr    = 23
	fRemovexattr  = 24
	fFlush        = 25
	fInit         = 26
	fOpendir      = 27
	fReaddir      = 28
	fReleasedir   = 29
	fAccess       = 34
	fCreate       = 35
	fFallocate    = 43
	fReaddirplus  = 44
	fRename2      = 45
	fuseRootNode  = 1
	maxFuseReply  = 300 << 10
	fuseReplyWait = 60 * time.Second
)

// fakeFusermount stands in for fusermount(1).
func fakeFusermount() int {
	dir := filepath.Dir(os.Args[0])
	if os.Chdir(dir) != nil {
		return 3
	}
	ctl, err := net.DialUnix("unix", nil, &net.UnixAddr{Name: "ctl", Net: "unix"})
	if err != nil {
		fmt.Fprintln(os.Stderr, "fusermount:", err)
		return 3
	}
	defer ctl.Close()
	answer := []byte{0}
	if len(os.Args) > 1 && os.Args[1] == "-u" {
		ctl.Write([]byte("U" + strings.Join(os.Args[2:], "\x00")))
		if ctl.Read(answer); answer[0] == 0 {
			fmt.Fprintln(os.Stderr, "fusermount: failed to unmount: Device or resource busy")
			return 1
		}
		return 0
	}
	fd, err := syscall.Socketpair(syscall.AF_UNIX, syscall.SOCK_SEQPACKET, 0)
	if err != nil {
		return 3
	}
	for _, f := range fd {
		syscall.SetsockoptInt(f, syscall.SOL_SOCKET, syscall.SO_SNDBUF, 2<<20)
	}
	if _, _, err := ctl.WriteMsgUnix([]byte("M"), syscall.UnixRights(fd[0]), nil); err != nil {
		return 3
	}
	if ctl.Read(answer); answer[0] == 0 {
		fmt.Fprintln(os.Stderr, "fusermount: mount failed: Operation not permitted")
		return 1
	}
	if err := syscall.Sendmsg(3, []byte{0}, syscall.UnixRights(fd[1]), nil, 0); err != nil {
		fmt.Fprintln(os.Stderr, "fusermount:", err)
		return 3
	}
	return 0
}

type fuseReply struct {
	errno int32 // negative
	data  []byte
}

// fuseFS is a running "btrfscue mount".
type fuseFS struct {
	cmd     *exec.Cmd
	dir     string
	lis     *net.UnixListener
	fd      *os.File // the kernel's end
	out     *capWriter
	errw    *capWriter
	exited  chan struct{}
	exitErr error
	mu      sync.Mutex
	closed  bool
	pending map[uint64]chan fuseReply
	unique  uint64
	gone    chan struct{} // the other side closed the connection
	opts    string
	once    sync.Once
	ending  atomic.Bool // it was asked to end
	// The next so many attempts to unmount fail, as if a file was open.
	busy     int
	refuse   bool     // to mount
	unmounts []string // arguments of each attempt
}

// mountPoint stands for the mount point in runOpt.raw.
const mountPoint = "$MNT"

type fuseMounted struct {
	fd  *os.File
	err error
}

// mountFS starts "btrfscue mount"; extra are its arguments before the mount
// point. A nil file system and no error mean that the command refused to
// mount in an orderly way; res is then its result.
func (x *Ctx) mountFS(bin string, o runOpt, args ...string) (fs *fuseFS, res *Res, err error) {
	x.seq++
	dir := x.Path(fmt.Sprintf("fuse%d", x.seq))
	must(os.Mkdir(dir, 0o755))
	must(os.Mkdir(dir+"/mnt", 0o755))
	must(os.Symlink(must1(os.Executable()), dir+"/fusermount"))
	f := &fuseFS{dir: dir, refuse: o.refuse, pending: map[uint64]chan fuseReply{}, exited: make(chan struct{}), gone: make(chan struct{}),
		out: &capWriter{max: 8 << 20}, errw: &capWriter{max: 4 << 20}}
	// Socket addresses are short: go by the descriptor of the directory.
	d := must1(os.Open(dir))
	lis, e := net.ListenUnix("unix", &net.UnixAddr{Name: fmt.Sprintf("/proc/self/fd/%d/ctl", d.Fd()), Net: "unix"})
	must(e)
	lis.SetUnlinkOnClose(false)
	d.Close()
	f.lis = lis
	must(os.Chmod(dir+"/ctl", 0o777))
	mounted := make(chan fuseMounted, 1)
	go f.serveCtl(mounted)

	args = append(append([]string{"-p=false", "mount"}, args...), dir+"/mnt")
	if o.raw != nil {
		args = nil
		for _, a := range o.raw {
			args = append(args, strings.ReplaceAll(a, mountPoint, dir+"/mnt"))
		}
	}
	f.cmd = exec.Command(bin, args...)
	f.cmd.Stdout, f.cmd.Stderr = f.out, f.errw
	f.cmd.Dir = o.dir
	f.cmd.Env = append([]string{"PATH=" + dir, "TZ=UTC", "HOME=/nonexistent"}, o.env...)
	f.cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	if o.uid != 0 && os.Getuid() == 0 {
		f.cmd.SysProcAttr.Credential = &syscall.Credential{Uid: uint32(o.uid), Gid: uint32(o.uid)}
	}
	must(f.cmd.Start())
	if o.cpuSec == 0 {
		o.cpuSec = 20
	}
	if o.asMB == 0 {
		o.asMB = 3000
	}
	if !o.noLimit {
		setLimit(f.cmd.Process.Pid, 0, o.cpuSec)
		setLimit(f.cmd.Process.Pid, 9, o.asMB<<20)
		setLimit(f.cmd.Process.Pid, 4, 0)
	}
	go func() {
		f.exitErr = f.cmd.Wait()
		close(f.exited)
	}()
	wall, stop := patient(100 * time.Second)
	defer stop()
	select {
	case m := <-mounted:
		if m.err != nil {
			f.kill()
			return nil, nil, infra("fusermount: %v", m.err)
		}
		f.fd = m.fd
	case <-f.exited:
		f.kill()
		r := f.result()
		if err := r.crashed(); err != nil {
			return nil, r, bad("btrfscue mount: %v", err)
		}
		return nil, r, nil
	case <-wall:
		stuck := o.stuckOK && blocked(f.cmd.Process.Pid)
		f.kill()
		if stuck {
			return nil, f.result(), bad("btrfscue mount does not mount: blocked\n%s", head(f.errw.String()))
		}
		return nil, nil, infra("mount: wall clock limit\n%s", head(f.errw.String()))
	}
	go f.reader()
	// Protocol 7.12 keeps to simple replies.
	r, err := f.call(fInit, 0, u32s(7, 12, 1<<17, 0))
	if err != nil {
		f.kill()
		return nil, nil, err
	}
	if r.errno != 0 {
		f.kill()
		return nil, nil, bad("FUSE initialisation failed: %d", r.errno)
	}
	return f, nil, nil
}

func (f *fuseFS) serveCtl(mounted chan fuseMounted) {
	for {
		c, err := f.lis.AcceptUnix()
		if err != nil {
			return
		}
		b, oob := make([]byte, 8192), make([]byte, 256)
		n, on, _, _, err := c.ReadMsgUnix(b, oob)
		switch {
		case err != nil || n == 0:
			mounted <- fuseMounted{err: fmt.Errorf("no message: %v", err)}
		case b[0] == 'M':
			m, err := syscall.ParseSocketControlMessage(oob[:on])
			if err != nil || len(m) != 1 {
				mounted <- fuseMounted{err: fmt.Errorf("no descriptor: %v", err)}
				break
			}
			fds, err := syscall.ParseUnixRights(&m[0])
			if err != nil || len(fds) != 1 {
				mounted <- fuseMounted{err: fmt.Errorf("no descriptor: %v", err)}
				break
			}
			syscall.CloseOnExec(fds[0])
			if f.refuse {
				syscall.Close(fds[0])
				c.Write([]byte{0})
				break
			}
			c.Write([]byte{1})
			mounted <- fuseMounted{fd: os.NewFile(uintptr(fds[0]), "fuse")}
		case b[0] == 'U':
			f.mu.Lock()
			f.unmounts = append(f.unmounts, string(b[1:n]))
			busy := f.busy > 0
			f.busy--
			f.mu.Unlock()
			if busy {
				c.Write([]byte{0})
				break
			}
			f.disconnect()
			c.Write([]byte{1})
		}
		c.Close()
	}
}

func (f *fuseFS) disconnect() {
	f.mu.Lock()
	defer f.mu.Unlock()
	if !f.closed && f.fd != nil {
		f.closed = true
		syscall.Shutdown(int(f.fd.Fd()), syscall.SHUT_RDWR)
	}
}

func (f *fuseFS) reader() {
	defer close(f.gone)
	buf := make([]byte, maxFuseReply)
	raw := int(f.fd.Fd())
	for {
		n, err := syscall.Read(raw, buf)
		if err == syscall.EINTR {
			continue
		}
		if err != nil || n == 0 {
			return
		}
		m := append([]byte(nil), buf[:n]...)
		if len(m) < 16 || int(le.Uint32(m)) != len(m) {
			f.errw.Write([]byte(fmt.Sprintf("\nMALFORMED REPLY of %d bytes: %x\n", len(m), m[:min(len(m), 32)])))
			continue
		}
		f.mu.Lock()
		u := le.Uint64(m[8:])
		ch := f.pending[u]
		delete(f.pending, u)
		f.mu.Unlock()
		if ch != nil {
			ch <- fuseReply{int32(le.Uint32(m[4:])), m[16:]}
		}
	}
}

func (f *fuseFS) send(op uint32, node uint64, body []byte, ch chan fuseReply) error {
	f.mu.Lock()
	f.unique += 2
	u := f.unique
	if ch != nil {
		f.pending[u] = ch
	}
	f.mu.Unlock()
	b := le.AppendUint32(nil, uint32(40+len(body)))
	b = le.AppendUint32(b, op)
	b = le.AppendUint64(b, u)
	b = le.AppendUint64(b, node)
	b = append(b, u32s(1000, 1000, 4242, 0)...)
	b = append(b, body...)
	for {
		n, err := syscall.Write(int(f.fd.Fd()), b)
		if err == syscall.EINTR {
			continue
		}
		if err == nil && n < len(b) {
			return infra("short write to the file system")
		}
		if err != nil {
			return f.died(fmt.Sprintf("operation %d on node %d", op, node))
		}
		return nil
	}
}

// call sends a request and waits for the answer. An error means that there was
// none.
func (f *fuseFS) call(op uint32, node uint64, body []byte) (fuseReply, error) {
	ch := make(chan fuseReply, 1)
	if err := f.send(op, node, body, ch); err != nil {
		return fuseReply{}, err
	}
	what := fmt.Sprintf("operation %d on node %d (%x)", op, node, body[:min(len(body), 64)])
	wall, stop := patient(fuseReplyWait)
	defer stop()
	select {
	case r := <-ch:
		if r.errno > 0 || r.errno < -4095 {
			return r, bad("%s: invalid error number %d", what, r.errno)
		}
		return r, nil
	case <-f.exited:
	case <-f.gone:
	case <-wall:
		dead := blocked(f.cmd.Process.Pid)
		select {
		case r := <-ch:
			return r, nil
		default:
		}
		if dead {
			return fuseReply{}, bad("%s: no answer, the file system is blocked\n%s", what, head(f.errw.String()))
		}
		return fuseReply{}, infra("%s: no answer in time", what)
	}
	// The answer may have come just before the end.
	select {
	case r := <-ch:
		return r, nil
	case <-time.After(200 * time.Millisecond):
	}
	return fuseReply{}, f.died(what)
}

// died explains why the file system went away.
func (f *fuseFS) died(what string) error {
	if f.ending.Load() {
		return bad("%s: %s", what, endedOnRequest)
	}
	wall, stop := patient(10 * time.Second)
	defer stop()
	select {
	case <-f.exited:
	case <-wall:
		return bad("%s: the file system closed the connection\n%s", what, head(f.errw.String()))
	}
	r := f.result()
	if err := r.crashed(); err != nil {
		if _, ok := err.(*errInfra); ok {
			return err
		}
		return bad("%s: %v", what, err)
	}
	return bad("%s: the file system ended with status %d\n%s", what, r.Code, head(r.Err))
}

func (f *fuseFS) result() *Res {
	<-f.exited
	r := &Res{Out: f.out.b.Bytes(), Err: f.errw.String(), Capped: f.out.capped || f.errw.capped}
	ps := f.cmd.ProcessState
	ws := ps.Sys().(syscall.WaitStatus)
	r.Code = ws.ExitStatus()
	if ws.Signaled() {
		r.Code, r.Signal = -1, ws.Signal()
	}
	ru := ps.SysUsage().(*syscall.Rusage)
	r.CPU = time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
	r.RSSKB = ru.Maxrss
	return r
}

// endedOnRequest is part of the message about requests after that.
const endedOnRequest = "it was asked to end"

// kill ends it without ceremony and frees everything.
func (f *fuseFS) kill() {
	f.once.Do(func() {
		syscall.Kill(-f.cmd.Process.Pid, syscall.SIGKILL)
		<-f.exited
		f.disconnect()
		f.lis.Close()
		if f.fd != nil {
			<-f.gone
			f.fd.Close()
		}
	})
}

// stop unmounts in the regular way and judges how the command ended.
func (f *fuseFS) stop() error {
	syscall.Kill(f.cmd.Process.Pid, syscall.SIGTERM)
	wall, stop := patient(60 * time.Second)
	defer stop()
	select {
	case <-f.exited:
	case <-wall:
		stuck := blocked(f.cmd.Process.Pid)
		f.kill()
		if stuck {
			return bad("the command does not end when asked to\n%s", head(f.errw.String()))
		}
		return infra("unmount: no end in time")
	}
	f.kill()
	r := f.result()
	if r.Signal == syscall.SIGTERM {
		r.Signal, r.Code = 0, 0 // asked before it was ready to catch the signal
	}
	if err := r.crashed(); err != nil {
		return err
	}
	if i := strings.Index(r.Err, "MALFORMED REPLY"); i >= 0 {
		return bad("%s", head(r.Err[i:]))
	}
	if r.Code != 0 && r.Code != 66 {
		return bad("the command ended with status %d\n%s", r.Code, head(r.Err))
	}
	return nil
}

func u32s(v ...uint32) (b []byte) {
	for _, x := range v {
		b = le.AppendUint32(b, x)
	}
	return
}

func u64s(v ...uint64) (b []byte) {
	for _, x := range v {
		b = le.AppendUint64(b, x)
	}
	return
}

func cstr(s ...string) (b []byte) {
	for _, x := range s {
		b = append(append(b, x...), 0)
	}
	return
}

// fAttr are the attributes of a node.
type fAttr struct {
	Ino, Size, Blocks                    uint64
	Atime, Mtime, Ctime                  uint64
	AtimeN, MtimeN, CtimeN               uint32
	Mode, Nlink, UID, GID, Rdev, BlkSize uint32
}

func decAttr(b []byte) (a fAttr, ok bool) {
	if len(b) < 88 {
		return a, false
	}
	u, v := le.Uint64, le.Uint32
	return fAttr{u(b), u(b[8:]), u(b[16:]), u(b[24:]), u(b[32:]), u(b[40:]), v(b[48:]), v(b[52:]), v(b[56:]),
		v(b[60:]), v(b[64:]), v(b[68:]), v(b[72:]), v(b[76:]), v(b[80:])}, true
}

// decEntry decodes the answer to LOOKUP.
func decEntry(b []byte) (node uint64, a fAttr, ok bool) {
	if len(b) < 128 {
		return 0, a, false
	}
	a, ok = decAttr(b[40:])
	return le.Uint64(b), a, ok
}

type fDirent struct {
	Ino, Off uint64
	Type     uint32
	Name     string
	Node     uint64 // READDIRPLUS
	Attr     fAttr
}

func decDirents(b []byte, plus bool) (out []fDirent, err error) {
	for len(b) > 0 {
		var d fDirent
		if plus {
			if len(b) < 128 {
				return nil, bad("truncated directory entry")
			}
			d.Node, d.Attr, _ = decEntry(b)
			b = b[128:]
		}
		if len(b) < 24 {
			return nil, bad("truncated directory entry")
		}
		d.Ino, d.Off, d.Type = le.Uint64(b), le.Uint64(b[8:]), le.Uint32(b[20:])
		n := int(le.Uint32(b[16:]))
		end := (24 + n + 7) &^ 7
		if n == 0 || n > 4096 || end > len(b) {
			return nil, bad("directory entry with a name of %d bytes", n)
		}
		d.Name = string(b[24 : 24+n])
		if strings.ContainsRune(d.Name, '/') || bytes.IndexByte(b[24:24+n], 0) >= 0 {
			return nil, bad("directory entry named %q", d.Name)
		}
		out = append(out, d)
		b = b[end:]
	}
	return
}
