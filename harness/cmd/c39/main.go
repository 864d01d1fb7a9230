// C39: calls are independent. Every operation of an alphabet that covers the
// library's host functions and gadgets is run alone, after every other operation
// (every history of two, thorough: three), and at the same time as every other
// under the happens-before race detector; inputs must stay what they were down to
// the spare capacity of every slice, results must not depend on what ran before
// and must not change afterwards.
package main

import (
	"bytes"
	"fmt"
	"hash/fnv"
	"math/big"
	"os"
	"os/exec"
	"reflect"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"verif/harness/mc"
)

// call is one call, ready to run: the inputs it is given and the call itself.
type call struct {
	in  []any
	run func() any
}

type op struct {
	name string
	mk   func() call
}

var bigIntT = reflect.TypeOf(big.Int{})

// show renders a value completely: through pointers and interfaces, unexported
// fields included, slices up to their capacity when full is set.
func show(b *strings.Builder, v reflect.Value, full bool, depth int) {
	if depth > 40 {
		b.WriteString("...")
		return
	}
	if !v.IsValid() {
		b.WriteString("nil")
		return
	}
	if v.Type() == bigIntT {
		neg, abs := v.Field(0), v.Field(1)
		fmt.Fprintf(b, "big(%v", neg.Bool())
		for i := 0; i < abs.Len(); i++ {
			fmt.Fprintf(b, " %x", abs.Index(i).Uint())
		}
		b.WriteString(")")
		return
	}
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		show(b, v.Elem(), full, depth+1)
	case reflect.Slice:
		n := v.Len()
		fmt.Fprintf(b, "[%d:", n)
		if full {
			v = v.Slice(0, v.Cap())
		}
		for i := 0; i < v.Len(); i++ {
			b.WriteString(" ")
			show(b, v.Index(i), full, depth+1)
		}
		b.WriteString("]")
	case reflect.Array:
		b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			b.WriteString(" ")
			show(b, v.Index(i), full, depth+1)
		}
		b.WriteString("]")
	case reflect.Struct:
		b.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			b.WriteString(" ")
			show(b, v.Field(i), full, depth+1)
		}
		b.WriteString("}")
	case reflect.Map:
		var ks []string
		for _, k := range v.MapKeys() {
			var kb strings.Builder
			show(&kb, k, full, depth+1)
			kb.WriteString(":")
			show(&kb, v.MapIndex(k), full, depth+1)
			ks = append(ks, kb.String())
		}
		sort.Strings(ks)
		fmt.Fprint(b, ks)
	case reflect.Bool:
		fmt.Fprint(b, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(b, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprint(b, v.Uint())
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		b.WriteString("-")
	default:
		fmt.Fprintf(b, "?%s", v.Kind())
	}
}

func render(v any, full bool) string {
	var b strings.Builder
	show(&b, reflect.ValueOf(v), full, 0)
	return b.String()
}

func short(s string) string {
	if len(s) > 120 {
		return s[:120] + "..."
	}
	return s
}

// diff shows where two renderings part.
func diff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	j := max(0, i-20)
	return fmt.Sprintf("...%s  ->  ...%s", short(a[j:]), short(b[j:]))
}

// do runs a call, a panic being a result like any other.
func (c call) do() (r any) {
	defer func() {
		if e := recover(); e != nil {
			r = fmt.Sprint("panic: ", e)
			if os.Getenv("VERIF_WHERE") != "" {
				r = fmt.Sprint(r, string(debug.Stack()))
			}
		}
	}()
	return c.run()
}

func main() {
	// the races found are counted by the check itself
	os.Setenv("GORACE", "exitcode=0 halt_on_error=0 history_size=5 suppress_equal_stacks=0 suppress_equal_addresses=0 log_path=/dev/null")
	if v := os.Getenv("C39_COLD"); v != "" {
		cold(v)
		return
	}
	mc.Main(mc.Meta{
		Prop:        "C39",
		Rule:        "all calls of the alphabet alone, all ordered pairs (thorough: triples with a reduced third step) as histories, all unordered pairs as concurrent calls under the happens-before race detector, which covers every interleaving of the two calls' recorded accesses",
		QuickBudget: 12 * time.Minute,
		DeepBudget:  60 * time.Minute,
		Assumptions: []string{
			"each operation stands for its function with one representative input (several where the function branches on its input)",
			"a data race is found when the two calls access the same memory without synchronisation on the paths these inputs take",
			"utils.Reverse is documented to reverse in place and is not part of the alphabet",
		},
	}, run)
}

func digest(s string) string {
	h := fnv.New128a()
	h.Write([]byte(s))
	return fmt.Sprintf("result %x", h.Sum(nil))
}

// together runs two calls at once and gives their results.
func together(a, b call) (res [2]string) {
	var wg sync.WaitGroup
	start := make(chan struct{})
	wg.Add(2)
	for i, k := range []call{a, b} {
		go func() {
			defer wg.Done()
			<-start
			res[i] = render(k.do(), false)
		}()
	}
	close(start)
	wg.Wait()
	return
}

// cold is the child process of "first calls of a process".
func cold(v string) {
	var i, j int
	var h string
	fmt.Sscanf(v, "%d %d %s", &i, &j, &h)
	ops := alphabet(h != "")
	a, b := ops[i].mk(), ops[j].mk()
	r := together(a, b)
	fmt.Printf("\nraces %d\n%s\n%s\n", races(), digest(r[0]), digest(r[1]))
}

func run(c *mc.Ctx) {
	ops := alphabet(c.Thorough())
	n := len(ops)
	names := func(i int) string { return ops[i].name }
	base := make([]string, len(ops)) // the result of the call on its own
	for i, o := range ops {
		base[i] = render(o.mk().do(), false)
	}
	c.Extra("operations", len(ops))
	c.Extra("race_detector", raceOn)
	if os.Getenv("VERIF_SHOW") != "" {
		for i := range ops {
			fmt.Println(ops[i].name, short(base[i]))
		}
	}

	// in a process of its own: nothing has run before, so what is set up on first
	// use is set up by two calls at once
	var cs [][2]int
	for i := range ops {
		for j := i; j < n; j++ {
			if i == j || c.Thorough() {
				cs = append(cs, [2]int{i, j})
			}
		}
	}
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	c.Each("first calls of a process", len(cs), func(x int) string { return names(cs[x][0]) + " | " + names(cs[x][1]) }, func(x int) string {
		cmd := exec.Command(self)
		heavy := ""
		if c.Thorough() {
			heavy = "h"
		}
		cmd.Env = append(os.Environ(), fmt.Sprintf("C39_COLD=%d %d %s", cs[x][0], cs[x][1], heavy), "GOMAXPROCS=4")
		var o, e bytes.Buffer
		cmd.Stdout, cmd.Stderr = &o, &e
		if err := cmd.Run(); err != nil {
			if s := e.String(); strings.Contains(s, "fatal error") || strings.Contains(s, "panic") {
				return "the process died: " + short(s)
			}
			return "" // not started: says nothing about the library
		}
		c.State(1)
		c.Trans(2)
		// what the library prints comes before the last three lines
		l := strings.Split(strings.TrimSpace(o.String()), "\n")
		if len(l) < 3 {
			return ""
		}
		l = l[len(l)-3:]
		if l[0] != "races 0" {
			return "data race"
		}
		for i := range cs[x] {
			if want := digest(base[cs[x][i]]); l[1+i] != want {
				return fmt.Sprintf("call %d has another result than later in a process", i)
			}
		}
		return ""
	})

	// one pair at a time, so that a race is attributed to its pair
	type pair struct{ a, b int }
	var ps []pair
	for i := 0; i < n; i++ {
		for j := i; j < n; j++ {
			ps = append(ps, pair{i, j})
		}
	}
	var one sync.Mutex
	c.Each("concurrent calls", len(ps), func(x int) string { return names(ps[x].a) + " | " + names(ps[x].b) }, func(x int) string {
		one.Lock()
		defer one.Unlock()
		a, b := ops[ps[x].a].mk(), ops[ps[x].b].mk()
		if ps[x].a == ps[x].b {
			b = a // the same inputs shared by both calls
		}
		r0 := races()
		res := together(a, b)
		c.State(1)
		c.Trans(2)
		if races() != r0 {
			return "data race"
		}
		if res[0] != base[ps[x].a] {
			return "first result: " + diff(base[ps[x].a], res[0])
		}
		if res[1] != base[ps[x].b] {
			return "second result: " + diff(base[ps[x].b], res[1])
		}
		return ""
	})

	c.Each("inputs untouched", len(ops), names, func(i int) string {
		k := ops[i].mk()
		before := render(k.in, true)
		r1 := render(k.do(), false)
		c.State(1)
		c.Trans(1)
		if after := render(k.in, true); after != before {
			return "the call changed its input: " + diff(before, after)
		}
		// the same inputs again, and fresh ones
		r2 := render(k.do(), false)
		if r1 != r2 {
			return "a second call with the same inputs differs: " + diff(r1, r2)
		}
		if r1 != base[i] {
			return "a call with equal inputs differs: " + diff(base[i], r1)
		}
		return ""
	})

	c.Each("histories", n*n, func(x int) string { return names(x/n) + " ; " + names(x%n) }, func(x int) string {
		a, b := ops[x/n].mk(), ops[x%n].mk()
		ra := a.do()
		sa := render(ra, false)
		rb := render(b.do(), false)
		c.State(1)
		c.Trans(2)
		if rb != base[x%n] {
			return "the second result depends on the first call: " + diff(base[x%n], rb)
		}
		if s := render(ra, false); s != sa {
			return "the second call changed the result of the first: " + diff(sa, s)
		}
		return ""
	})

	if !c.Thorough() {
		return
	}
	c.Each("histories of three", n*n*n, func(x int) string {
		return names(x/n/n) + " ; " + names(x/n%n) + " ; " + names(x%n)
	}, func(x int) string {
		ops[x/n/n].mk().do()
		ops[x/n%n].mk().do()
		rb := render(ops[x%n].mk().do(), false)
		c.State(1)
		c.Trans(3)
		if rb != base[x%n] {
			return "the third result depends on the first calls: " + diff(base[x%n], rb)
		}
		return ""
	})
}
