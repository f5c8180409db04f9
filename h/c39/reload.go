package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"os/signal"
	"strings"
	"syscall"
	"time"

	"github.com/ahKevinXy/go-web-tools/help/utils"
	"github.com/ahKevinXy/go-web-tools/zzverif/rt"
	"github.com/ahKevinXy/go-web-tools/zzverif/vh"
)

// leaf is a child of the harness: it reloads its parent, once for each line on its input.
func leaf() {
	in := bufio.NewReader(os.Stdin)
	for {
		if _, err := in.ReadString('\n'); err != nil {
			return
		}
		err := utils.Reload()
		fmt.Printf("%v\n", err != nil)
	}
}

// reload: success means that the parent process got one hang-up signal and nothing else, failure that it got none
func reload() {
	path := rt.Choose(5)
	n := 1 + rt.Choose(3)
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	bin, _ := os.MkdirTemp(".", "bin")
	wd, _ := os.Getwd()
	bin = wd + "/" + bin
	defer os.RemoveAll(bin)
	script := func(text string) { os.WriteFile(bin+"/kill", []byte("#!/bin/sh\n"+text+"\n"), 0755) }
	p := bin
	switch path {
	case 0:
		p = "/usr/bin:/bin"
	case 1: // no such command
	case 2:
		script("exit 1")
	case 3:
		script("kill -9 $$")
	case 4:
		os.WriteFile(bin+"/kill", []byte("not a program"), 0644)
	}
	sig := make(chan os.Signal, 100)
	signal.Notify(sig, syscall.SIGHUP, syscall.SIGTERM, syscall.SIGINT, syscall.SIGQUIT, syscall.SIGUSR1, syscall.SIGUSR2, syscall.SIGCONT, syscall.SIGALRM)
	defer signal.Stop(sig)
	// another child of the parent
	other := exec.Command("/bin/sh", "-c", "read x; exit 42")
	hold, _ := other.StdinPipe()
	if err := other.Start(); err != nil {
		panic(err)
	}
	c := exec.Command(exe, "reload-leaf")
	c.Env = []string{"PATH=" + p, "GOMAXPROCS=1"}
	in, _ := c.StdinPipe()
	out, _ := c.StdoutPipe()
	if err := c.Start(); err != nil {
		panic(err)
	}
	rd := bufio.NewReader(out)
	for i := 0; i < n; i++ {
		io.WriteString(in, "\n")
		l, err := rd.ReadString('\n')
		vh.Check(err == nil, "crash", "the process that called Reload ended: %v", err)
		failed := strings.TrimSpace(l) == "true"
		got := 0
		// a signal sent before Reload returned arrives at once; where none is expected a short wait has to do
		wait := 20 * time.Second
		if failed {
			wait = 20 * time.Millisecond
		}
		for {
			stop := false
			select {
			case s := <-sig:
				vh.Check(s == syscall.SIGHUP, "reload", "Reload sends the signal %v", s)
				got++
				wait = 20 * time.Millisecond
			case <-time.After(wait):
				stop = true
			}
			if stop {
				break
			}
		}
		rt.Tracef("Reload (%d) failed %v, signals %d", path, failed, got)
		vh.Check(path != 0 || !failed, "reload", "Reload fails")
		if failed {
			vh.Check(got == 0, "reload", "Reload reports a failure but the parent was signalled")
		} else {
			vh.Check(got == 1, "reload", "Reload reports success and the parent got %d hang-up signals", got)
		}
	}
	in.Close()
	err = c.Wait()
	vh.Check(err == nil, "crash", "the process that called Reload ended with %v", err)
	hold.Close()
	other.Wait()
	vh.Check(other.ProcessState.ExitCode() == 42, "reload", "another process was signalled too: %v", other.ProcessState)
}
