package gost

import (
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

// Concrete search for failing inputs of the real code, one function per property. It runs when an obligation
// fails (mode search) and for the labelled bounded stand-ins (mode bounded).
type vcheck struct {
	mode, prop, name string
	f                func(r *vrun)
}

var vchecks []vcheck

func search(prop, name string, f func(r *vrun)) bool {
	vchecks = append(vchecks, vcheck{"search", prop, name, f})
	return true
}
func bounded(prop, name string, f func(r *vrun)) bool {
	vchecks = append(vchecks, vcheck{"bounded", prop, name, f})
	return true
}

type vrun struct {
	rng      *rand.Rand
	cases    int64
	deadline time.Time
	scratch  string
	mode     string
	out      *vout
}

// vout collects what all searches report.
type vout struct {
	mu    sync.Mutex
	wits  int
	cur   atomic.Value
	start atomic.Int64
}

func (o *vout) witness(s string) {
	o.mu.Lock()
	defer o.mu.Unlock()
	o.wits++
	if o.wits <= 5 {
		fmt.Println("WITNESS " + strings.ReplaceAll(s, "\n", " | "))
	}
}

func (r *vrun) done() bool { return time.Now().After(r.deadline) || r.out.wits >= 5 }

// try runs one case; a non-empty answer or an unexpected panic is a failing input.
func (r *vrun) try(desc string, f func() string) {
	r.cases++
	r.out.cur.Store(desc)
	r.out.start.Store(time.Now().UnixNano())
	msg := func() (s string) {
		defer func() {
			if e := recover(); e != nil {
				s = fmt.Sprintf("unexpected panic: %v", e)
			}
		}()
		return f()
	}()
	r.out.start.Store(0)
	if msg != "" {
		r.out.witness(desc + ": " + msg)
	}
}

// panics reports whether f panics.
func vpanics(f func()) (p bool) {
	defer func() {
		if e := recover(); e != nil {
			p = true
		}
	}()
	f()
	return false
}

func vexpect(what string, got, want any) string {
	if fmt.Sprint(got) == fmt.Sprint(want) {
		return ""
	}
	return fmt.Sprintf("%s = %v, expected %v", what, got, want)
}

func TestVerifReplay(t *testing.T) {
	prop, mode := os.Getenv("VERIF_PROP"), os.Getenv("VERIF_MODE")
	if prop == "" {
		t.Skip()
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	budget, _ := strconv.Atoi(os.Getenv("VERIF_BUDGET"))
	if budget == 0 {
		budget = 30
	}
	out := &vout{}
	out.cur.Store("")
	go func() { // one case that does not come back, or eats all memory
		for {
			time.Sleep(200 * time.Millisecond)
			s := out.start.Load()
			hang := s != 0 && time.Since(time.Unix(0, s)) > 10*time.Second
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if hang || ms.HeapAlloc > 3<<30 {
				fmt.Println("WITNESS " + strings.ReplaceAll(out.cur.Load().(string), "\n", " | ") + ": does not terminate (or allocates without end)")
				os.Exit(1)
			}
		}
	}()
	var sel []vcheck
	for _, c := range vchecks {
		if c.prop == prop && (mode == "search" || c.mode == mode) {
			sel = append(sel, c)
		}
	}
	sort.SliceStable(sel, func(i, j int) bool { return sel[i].name < sel[j].name })
	for _, c := range sel {
		r := &vrun{rng: rand.New(rand.NewSource(seed)), deadline: time.Now().Add(time.Duration(budget) * time.Second / time.Duration(len(sel))), scratch: os.Getenv("VERIF_SCRATCH"), mode: mode, out: out}
		c.f(r)
		fmt.Printf("CASES %d %s\n", r.cases, c.name)
		if out.wits >= 5 {
			break
		}
	}
	if out.wits > 0 {
		os.Exit(1)
	}
}
