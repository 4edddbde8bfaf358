// Command verifh runs the workload and the monitors of one property.
package main

import (
	"fmt"
	"os"
	"runtime/debug"
)

var checks = map[string]func(t *T){}

func main() {
	if len(os.Args) != 2 || checks[os.Args[1]] == nil {
		fmt.Fprintln(os.Stderr, "usage: verifh PROPERTY")
		os.Exit(2)
	}
	debug.SetTraceback("all")
	t := newT(os.Args[1])
	func() {
		defer t.guard("main goroutine")
		checks[os.Args[1]](t)
		t.kinds()
		t.odd()
		t.volume()
		t.patience()
	}()
	t.mu.Lock()
	observed := t.evals > 0 && len(t.distinct) > 0
	t.mu.Unlock()
	if !observed {
		fmt.Fprintln(os.Stderr, "INCONCLUSIVE: nothing was observed")
		os.Exit(4)
	}
	t.finish(nil)
}
