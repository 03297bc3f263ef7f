package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"
)

// step waits for text on the terminal and then types.
type step struct{ wait, send string }

var cursorQuery = []byte("\x1b[6n")
var ansiRe = regexp.MustCompile("\x1b\\[[0-9;?]*[A-Za-z]")

// echoes tells if the terminal shows what is typed.
func echoes(m *os.File) bool {
	var t syscall.Termios
	_, _, e := syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), syscall.TCGETS, uintptr(unsafe.Pointer(&t)))
	return e == 0 && t.Lflag&syscall.ECHO != 0
}

// pending tells if the program wrote something that was not looked at yet.
func pending(m *os.File) bool {
	var n int32
	_, _, e := syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), syscall.TIOCINQ, uintptr(unsafe.Pointer(&n)))
	return e == 0 && n > 0
}

type pollFd struct {
	fd              int32
	events, revents int16
}

// readCalls is how often the process read anything.
func readCalls(pid int) (n int) {
	b, _ := os.ReadFile(fmt.Sprintf("/proc/%d/io", pid))
	if i := bytes.Index(b, []byte("syscr: ")); i >= 0 {
		fmt.Sscan(string(b[i+7:]), &n)
	}
	return
}

// reading tells if the process waits for its standard input, if that can be
// known.
func reading(pid int) (reads, known bool) {
	tasks, _ := filepath.Glob(fmt.Sprintf("/proc/%d/task/*/syscall", pid))
	for _, t := range tasks {
		b, err := os.ReadFile(t)
		known = known || err == nil && len(b) > 0
		if bytes.HasPrefix(b, []byte("0 0x0 ")) {
			return true, true
		}
	}
	return false, known
}

// runPTY runs a program on a terminal of its own and types the answers. A
// program that ends before all answers were typed is judged by the caller
// (done tells how many steps were taken).
func (c *Case) runPTY(o cmdOpt, steps []step, name string, args ...string) (r ran, done int) {
	c.typed = true
	if o.timeout == 0 {
		o.timeout = 60 * time.Second
	}
	m, err := os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		c.Error("no pseudo terminal: %v", err)
	}
	defer m.Close()
	var n uint32
	var unlock int32
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), syscall.TIOCGPTN, uintptr(unsafe.Pointer(&n))); e != 0 {
		c.Error("TIOCGPTN: %v", e)
	}
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), syscall.TIOCSPTLCK, uintptr(unsafe.Pointer(&unlock))); e != 0 {
		c.Error("TIOCSPTLCK: %v", e)
	}
	ws := [4]uint16{50, 200, 0, 0}
	syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), syscall.TIOCSWINSZ, uintptr(unsafe.Pointer(&ws)))
	s, err := os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		c.Error("no pseudo terminal: %v", err)
	}
	cmd := exec.Command(name, args...)
	cmd.Dir = o.dir
	if cmd.Dir == "" {
		cmd.Dir = c.Dir()
	}
	cmd.Env = append([]string{"PATH=/usr/local/bin:/usr/bin:/bin", "HOME=" + c.Dir(), "TMPDIR=" + c.Dir(), "TZ=" + c.zone(), "TERM=xterm", "GOMAXPROCS=2"}, o.env...)
	cmd.Stdin, cmd.Stdout, cmd.Stderr = s, s, s
	cmd.SysProcAttr = &syscall.SysProcAttr{Setsid: true, Setctty: true}
	c.external.Add(1)
	defer c.external.Add(-1)
	if err := cmd.Start(); err != nil {
		s.Close()
		c.Error("can not run %s: %v", name, err)
	}
	s.Close()
	var mu sync.Mutex
	var seen bytes.Buffer
	answered := 0
	reads := 0 // by the program before it got the last answer
	eof, closed := make(chan struct{}), make(chan struct{})
	defer close(closed)
	go func() {
		defer close(eof)
		b := make([]byte, 4096)
		for {
			// With the lock held, what was written is either read and answered,
			// or can still be read.
			fds := []pollFd{{fd: int32(m.Fd()), events: 1}}
			syscall.Syscall(syscall.SYS_POLL, uintptr(unsafe.Pointer(&fds[0])), 1, 1000)
			if fds[0].revents == 0 {
				select {
				case <-closed:
					return
				default:
				}
				continue
			}
			mu.Lock()
			n, err := m.Read(b)
			if n > 0 {
				seen.Write(b[:n])
				for q := bytes.Count(seen.Bytes(), cursorQuery); answered < q; answered++ {
					reads = readCalls(cmd.Process.Pid)
					m.WriteString("\x1b[10;1R")
				}
			}
			mu.Unlock()
			if err != nil {
				return
			}
		}
	}()
	deadline := time.Now().Add(o.timeout)
	pos := 0
	ended := make(chan struct{})
	go func() { cmd.Wait(); close(ended) }()
loop:
	for done < len(steps) {
		mu.Lock()
		text := seen.String()
		mu.Unlock()
		if i := strings.Index(text[pos:], steps[done].wait); i >= 0 {
			pos += i + len(steps[done].wait)
			// What is typed while the program is not waiting for it may get lost
			// (it asks the terminal things and drops what it read too much).
			ready, blind := 0, 0
			for wait := 0; wait < 1000 && ready < 4; wait++ {
				time.Sleep(10 * time.Millisecond)
				waits, known := reading(cmd.Process.Pid)
				if !known {
					blind++
				}
				mu.Lock()
				if echoes(m) || blind < 10 && (!waits || readCalls(cmd.Process.Pid) <= reads) || pending(m) {
					ready = 0
				} else {
					ready++
				}
				mu.Unlock()
				select {
				case <-ended:
					ready = 4
				default:
				}
			}
			if f := o.before[done]; f != nil {
				f()
			}
			m.WriteString(steps[done].send)
			done++
			continue
		}
		select {
		case <-ended:
			break loop
		case <-time.After(10 * time.Millisecond):
		}
		if time.Now().After(deadline) {
			break
		}
	}
	select {
	case <-ended:
	case <-time.After(time.Until(deadline)):
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-ended
		if o.mayHang {
			break
		}
		mu.Lock()
		defer mu.Unlock()
		c.Error("%s %v did not end on a terminal (%q): %q", name, args, steps, seen.String())
	}
	m.SetReadDeadline(time.Now().Add(time.Second))
	select {
	case <-eof:
	case <-time.After(2 * time.Second):
	}
	mu.Lock()
	defer mu.Unlock()
	r = ran{out: ansiRe.ReplaceAllString(seen.String(), ""), code: cmd.ProcessState.ExitCode()}
	if st, ok := cmd.ProcessState.Sys().(syscall.WaitStatus); ok && st.Signaled() {
		r.signal = st.Signal()
	}
	return r, done
}
