package main

import (
	"fmt"
	"os"
)

func py(o PyOp) *Stmt                 { return &Stmt{K: SPy, Py: o} }
func set(v string, e Expr) *Stmt      { return py(Asg{v, e}) }
func blk(f Flow, s ...*Stmt) *Block   { return &Block{Flow: f, Stmts: s} }
func sb(f Flow, s ...*Stmt) *Stmt     { return &Stmt{K: SBlock, Blk: blk(f, s...)} }
func iff(c Expr, b *Block) *Stmt      { return &Stmt{K: SIf, Conds: []Expr{c}, Blks: []*Block{b}} }
func anyIn(v string, e Expr) *Stmt    { return &Stmt{K: SAny, Var: v, E: e} }
func anyB(v string, e Expr, b *Block) *Stmt {
	return &Stmt{K: SAny, Var: v, E: e, Blk: b}
}
func act(n string, f Flow, s ...*Stmt) *Action {
	return &Action{Name: n, Flow: f, Blk: blk(f, s...)}
}
func bin(a Expr, op string, b Expr) Expr { return Bin{op, a, b} }

func experiment(args []string) {
	pass := &Stmt{K: SPass}; _ = pass
	show := func(name string, s *Spec, o Opts) {
		out := os.Stdout
		os.Stdout, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
		r := runImpl(s.File(), o)
		os.Stdout = out
		fmt.Println("=====", name)
		fmt.Print(s.Text())
		if r.Panic != "" {
			fmt.Println("PANIC", r.Panic)
			return
		}
		fmt.Println(extract(r.Init, true))
		if r.Failed != nil {
			fmt.Println("FAILED", r.Failed.Heap.ToJson())
		}
	}
	init := blk(FAtomic, set("a", I(0)))
	one := Opts{MaxActions: 5, MaxConc: 1}
	inc := set("a", bin(bin(Var("a"), "+", I(1)), "%", I(2)))
	show("parallel require", &Spec{Init: init, Actions: []*Action{
		act("A", FParallel, &Stmt{K: SRequire, E: B(true)}, inc, inc)}}, one)
}
