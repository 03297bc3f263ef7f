package main

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"os"
	"os/signal"
	"runtime"
	"strconv"
	"syscall"

	k431 "github.com/sa6mwa/krypto431"
)

func init() { runtime.LockOSThread() } // one thread makes the system calls of a helper

// runHelper runs one operation in its own process, so that faults injected
// into it and its death leave the monitor alone. It prints one RESULT line.
func runHelper(name string, args []string) {
	switch name {
	case "files":
		helperFiles(args)
	case "first":
		helperFirst(args)
	case "random":
		helperRandom(args)
	case "password": // op prompt minimum
		min, _ := strconv.Atoi(args[2])
		var pw *[]byte
		var err error
		switch args[0] {
		case "confirm":
			pw, err = k431.AskAndConfirmPassword(args[1], k431.MinimumPasswordEntropyBits)
		case "old":
			pw, err = k431.OldAskAndConfirmPassword(args[1], min)
		case "ask":
			pw = k431.AskForPassword(args[1], min)
		}
		if err != nil || pw == nil {
			fmt.Println("no password", err)
			os.Exit(1)
		}
		fmt.Printf("RESULT %x\n", *pw)
	case "save", "retry": // file pfk seed [limit]
		k, err := reopen(args[0], args[1])
		if err != nil {
			fmt.Println("RESULT load-error", err)
			os.Exit(3)
		}
		seed, _ := strconv.ParseUint(args[2], 10, 64)
		c13Modify(k, seed)
		before, _ := os.ReadFile(args[0])
		var rl syscall.Rlimit
		if len(args) > 3 {
			n, _ := strconv.ParseUint(args[3], 10, 64)
			signal.Ignore(syscall.SIGXFSZ)
			if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &rl); err != nil {
				fmt.Println("RESULT rlimit-error", err)
				os.Exit(4)
			}
			if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: n, Max: rl.Max}); err != nil {
				fmt.Println("RESULT rlimit-error", err)
				os.Exit(4)
			}
		}
		fmt.Println("SAVING")
		if err := k.Save(); err != nil {
			fmt.Println("RESULT error", err)
			if name != "retry" {
				os.Exit(1)
			}
			// The fault is over: if nothing changed, the same can be saved now.
			if len(args) > 3 {
				syscall.Setrlimit(syscall.RLIMIT_FSIZE, &rl)
			}
			if after, _ := os.ReadFile(args[0]); !bytes.Equal(before, after) {
				fmt.Println("RETRY changed")
				os.Exit(1)
			}
			if err := k.Save(); err != nil {
				fmt.Println("RETRY error", err)
				os.Exit(1)
			}
			fmt.Println("RETRY ok")
			os.Exit(1)
		}
		fmt.Println("RESULT ok")
	}
}

// c13Modify is the change whose saving is interrupted.
func c13Modify(k *k431.Krypto431, seed uint64) {
	r := rand.New(rand.NewPCG(seed, 13))
	switch r.IntN(3) {
	case 0: // grows
		for i := 0; i < 30; i++ {
			addKeyLen(r, k, 5, 80, "AA")
		}
	case 1: // shrinks
		k.Keys = k.Keys[:len(k.Keys)/2]
	case 2: // about the same
		for i := range k.Keys {
			k.Keys[i].Used = !k.Keys[i].Used
		}
	}
	k.CallSign = []rune(fmt.Sprintf("NEW%d", seed%1000))
}
