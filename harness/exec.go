package main

import (
	"bytes"
	"os"
	"os/exec"
	"syscall"
	"time"
)

type ran struct {
	out, err string
	code     int // exit status, -1 if killed by a signal
	signal   syscall.Signal
}

type cmdOpt struct {
	env     []string
	stdin   string
	dir     string
	umask   int // -1: leave
	timeout time.Duration
	before  map[int]func() // runPTY: called before a step is typed
	mayHang bool           // runPTY: a program still waiting is killed, signal is SIGKILL
}

// run executes a program and waits for it; running out of time is not a
// verdict.
func (c *Case) run(o cmdOpt, name string, args ...string) ran {
	if o.timeout == 0 {
		o.timeout = 120 * time.Second
	}
	cmd := exec.Command(name, args...)
	cmd.Dir = o.dir
	if cmd.Dir == "" {
		cmd.Dir = c.Dir()
	}
	cmd.Env = append([]string{"PATH=/usr/local/bin:/usr/bin:/bin", "HOME=" + c.Dir(), "TMPDIR=" + c.Dir(), "TZ=" + c.zone(), "GOMAXPROCS=2"}, o.env...)
	cmd.Stdin = bytes.NewReader([]byte(o.stdin))
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	cmd.SysProcAttr = &syscall.SysProcAttr{Setsid: true}
	c.external.Add(1)
	defer c.external.Add(-1)
	if err := cmd.Start(); err != nil {
		c.Error("can not run %s: %v", name, err)
	}
	timer := time.AfterFunc(o.timeout, func() { syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) })
	cmd.Wait()
	if !timer.Stop() {
		c.Error("%s %v ran for more than %v", name, args, o.timeout)
	}
	r := ran{out: out.String(), err: errb.String(), code: cmd.ProcessState.ExitCode()}
	if ws, ok := cmd.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
		r.signal = ws.Signal()
	}
	return r
}

func self() string {
	p, err := os.Executable()
	if err != nil {
		return os.Args[0]
	}
	return p
}

// zone is the time zone that programs run in; the same throughout a case. Without
// zone files it is UTC.
func (c *Case) zone() string {
	zones := []string{"UTC", "UTC", "UTC", "Europe/Stockholm", "Asia/Kolkata", "America/St_Johns", "Pacific/Auckland", "America/New_York", "Pacific/Kiritimati", "Asia/Kathmandu", "Pacific/Honolulu"}
	return zones[c.Idx%len(zones)]
}
