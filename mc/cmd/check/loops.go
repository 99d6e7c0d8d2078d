package main

import (
	"fmt"
	"strings"
	"sync"
	"time"

	"github.com/andygello555/json-dom/globals"
	"github.com/andygello555/json-dom/jom"

	"verif/core"
	"verif/ref"
)

// Endless programs which may be inside the interpreter for ever: a program in which the interpreter never looks at its interrupts
// does not give the scheduler of cmd/conc a point either, so each of them runs on the unchanged code in a process of its own.

var loopPrograms = []struct{ name, js string }{
	{"empty for", "for (;;) {}"},
	{"empty for with a semicolon", "for (;;);"},
	{"empty for in a function", "(function () { for (;;) {} })()"},
	{"empty for in a function expression of a var", "var f = function () { for (var i = 0;;) {} }; f()"},
	{"empty for in a nested function", "(function () { return function () { for (;;) {} } })()()"},
	{"empty for in try", "try { for (;;) {} } catch (e) {} finally {}"},
	{"empty for in catch", "try { throw 1 } catch (e) { for (;;) {} }"},
	{"empty for in finally", "try { 1 } finally { for (;;) {} }"},
	{"empty for in a block", "{ { for (;;) {} } }"},
	{"empty for in if", "if (true) { for (;;) {} } else { 1 }"},
	{"empty for in else", "if (false) { 1 } else for (;;) {}"},
	{"empty for in a loop", "while (true) { for (;;) {} }"},
	{"empty for in a for", "for (var i = 0; ; i++) for (;;) {}"},
	{"empty for in for in", "for (var k in {a: 1}) { for (;;) {} }"},
	{"empty for in do", "do { for (;;) {} } while (false)"},
	{"empty for in switch", "switch (1) { case 1: for (;;) {} }"},
	{"empty for in default", "switch (1) { default: for (;;) {} }"},
	{"empty for in with", "with ({}) { for (;;) {} }"},
	{"empty for with a label", "a: for (;;) {}"},
	{"empty for in a getter", "var o = {get a() { for (;;) {} }}; o.a"},
	{"empty for in a setter", "var o = {set a(x) { for (;;) {} }}; o.a = 1"},
	{"empty for in a literal", "[{a: (function () { for (;;) {} })()}]"},
	{"empty for in an argument", "String((function () { for (;;) {} })())"},
	{"empty for in a condition", "while ((function () { for (;;) {} })()) {}"},
	{"empty for in an operand", "1 + (true ? (function () { for (;;) {} })() : 2)"},
	{"empty for in a new", "new (function () { for (;;) {} })()"},
	{"empty for in a comparator", "[2, 1].sort(function () { for (;;) {} })"},
	{"empty for in a block in a block", "for (;;) { {} }"},
	{"empty for with empty statements", "for (;;) { ; ; }"},
	{"empty while", "while (true) {}"},
	{"empty do", "do {} while (true)"},
	{"empty for with a test", "for (; true;) {}"},
	{"empty for with an update", "var i = 0; for (;; i++) {}"},
	{"var in a for", "for (;;) { var x }"},
	{"function in a for", "for (;;) { function f() {} }"},
	{"continue", "for (;;) { continue }"},
	{"labelled continue", "a: for (;;) { for (;;) { continue a } }"},
	{"endless while in eval", "eval('while (true) {}')"},
	{"endless while in Function", "new Function('while (true) {}')()"},
	{"toJSON", "json.trail.a = { toJSON: function () { while (true) {} } }"},
	{"toJSON of the scope", "json.trail.toJSON = function () { for (;;) {} }"},
	{"getter of the scope", "Object.defineProperty(json.trail, 'a', { enumerable: true, get: function () { while (true) {} } })"},
	{"toJSON at a path", "json.jsonPathSelector('$.o').setValues({ toJSON: function () { while (true) {} } })"},
	{"getter in the log", "console.log({ get a() { while (true) {} } })"},
	{"thrown toString", "throw { toString: function () { while (true) {} } }"},
	{"toString of an index", "var o = {}; o[{ toString: function () { while (true) {} } }]"},
	{"valueOf", "1 + { valueOf: function () { while (true) {} } }"},
	{"toString in the filter log", "console.log({ toString: function () { while (true) {} } })"},
	{"toString in the filter log in a loop", "while (true) { console.error({ toString: function () { while (true) {} } }) }"},
	// known
	{"empty for in eval", "eval('for (;;) {}')"},
	{"empty for in Function", "new Function('for (;;) {}')()"},
	{"native loop", "new Array(4294967295).indexOf(1)"},
}

func loopCase(name string) (run func() (string, error)) {
	for _, p := range loopPrograms {
		p := p
		switch name {
		case "script: " + p.name:
			return func() (string, error) {
				out, err := jom.Eval([]byte(ref.Canon(M{"o": M{"s": "#//!js\n" + p.js}})), false)
				return string(out), err
			}
		case "filter: " + p.name:
			return func() (string, error) {
				values, err := jom.NewFromMap(M{"l": A{1.0}}).JsonPathSelector("$.l[?((function () { " + p.js + " })())]")
				return fmt.Sprint(values), err
			}
		}
	}
	return nil
}

func runLoopCase(name string) {
	ballast = nil
	globals.HaltingDelay = 1
	start := time.Now()
	out, err := loopCase(name)()
	took := time.Since(start)
	switch {
	case err == nil || !strings.Contains(err.Error(), "Infinite loop has occurred after"):
		fmt.Println("BAD", head(fmt.Sprintf("%q, error %v", out, err), 300))
	case took < time.Second:
		fmt.Println("BAD halted after", took)
	default:
		fmt.Println("RETURNED")
	}
}

// endless runs all the endless programs (as a script or as a filter).
func endless(c *core.Ctx, kind string) {
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	var names []string
	for _, p := range loopPrograms {
		name := kind + ": " + p.name
		// getters of logged objects are run by the log of scripts, their toString functions by the log of filters
		if (kind == "filter") != strings.Contains(p.name, "filter log") && strings.Contains(p.js, "console.") || kind == "filter" && strings.Contains(p.js, "json.") {
			continue
		}
		names = append(names, p.js)
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			c.Eval(1)
			c.Traces(1)
			f := single(c, name, 6*time.Second)
			if f != nil && !c.IsKnown(name) {
				// a machine under load is no reason for an alarm
				f = single(c, name, 40*time.Second)
			}
			if f != nil {
				c.Violate(f)
			}
			c.Nontrivial(1)
		}()
	}
	wg.Wait()
	c.Extra("endless programs in processes of their own", names)
}
