// Package absint is a whole-program abstract interpreter for the SSA form:
// a relational numeric domain (linear facts over symbolic integers) with a
// points-to heap, run over harness functions that put every input in play.
package absint

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/core"
)

// Config selects the obligations to record.
type Config struct {
	Safety  bool // panics: nil, bounds, shifts, division, assertions
	Window  bool // reads of a tracked document
	Front   bool // follow how far the document has been read
	Rank    bool // termination of loops
	Pack    bool // packing of fields into words
	Zero    bool // tell elements as they were made from stored ones
	Subst   bool // let harness functions stand in for library ones
	Limit   time.Duration
	Profile bool
	Wrap    bool // wrap-around of accumulations
	Debug   string
}

type obKey struct {
	kind string
	in   ssa.Instruction
}

type obRes struct {
	ok  bool
	msg string
	n   int
}

// passLog collects what one pass over a loop body established; only the log
// of the accepted pass counts.
type passLog struct {
	obs   map[obKey]*obRes
	funcs map[*ssa.Function]bool
	memos []memoReq
}

func newLog() *passLog {
	return &passLog{obs: map[obKey]*obRes{}, funcs: map[*ssa.Function]bool{}}
}

func (l *passLog) merge(m *passLog) {
	for k, r := range m.obs {
		o := l.obs[k]
		if o == nil {
			c := *r
			l.obs[k] = &c
			continue
		}
		o.n += r.n
		if o.ok && !r.ok {
			o.ok, o.msg = false, r.msg
		}
	}
	l.memos = append(l.memos, m.memos...)
	for f := range m.funcs {
		l.funcs[f] = true
	}
}

// Analysis is one run from one entry function.
type Analysis struct {
	memoKinds map[*ssa.Function]*memoKind
	memos     map[*ssa.Function][]*memoEntry
	sums      map[*ssa.Function][]*sumEntry
	sumKinds  map[*ssa.Function]*memoKind
	sumMiss   map[*ssa.Function]int
	recVals   map[ssa.Value]bool
	accum     map[*ssa.BinOp]bool

	prog       *core.Program
	cfg        Config
	atoms      []atomInfo
	objs       []objInfo
	globalObjs []ObjID
	globals    map[*ssa.Global]ObjID
	pinned     map[int64]Atom
	ids        int
	thresholds []int64
	coarse     []int64        // the few thresholds left when widening drags on
	strict     int            // how hard widening presses: 0 to 3
	failRow    int            // the fact included found missing, or -1
	badInv     map[[3]int]int // how often guesses failed and held: see counts
	goodInv    map[[3]int]int
	stats      struct{ joins, incl, calls, passes, blocks int }
	fns        map[*ssa.Function]*fnInfo
	allocs     map[allocKey]ObjID
	log        *passLog
	deadline   time.Time
	constField map[string]bool
	harness    *types.Package
	depth      int
	prof       map[*ssa.Function]*profile
	fresh      int
	// SplitKey, when set, refines the partitioning
	errObj types.Type
}

type profile struct {
	calls int
	total time.Duration
}

// Profile prints the functions most time went into.
func (an *Analysis) Profile() {
	var fs []*ssa.Function
	for f := range an.prof {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return an.prof[fs[i]].total > an.prof[fs[j]].total })
	for i, f := range fs {
		if i < 40 {
			fmt.Printf("  %8.2fs %6d %s\n", an.prof[f].total.Seconds(), an.prof[f].calls, f)
		}
	}
}

type allocKey struct {
	in  ssa.Instruction
	ctx string
}

// New prepares an analysis of prog.
func New(prog *core.Program, cfg Config) *Analysis {
	an := &Analysis{sums: map[*ssa.Function][]*sumEntry{}, sumKinds: map[*ssa.Function]*memoKind{}, sumMiss: map[*ssa.Function]int{}, badInv: map[[3]int]int{}, goodInv: map[[3]int]int{}, memoKinds: map[*ssa.Function]*memoKind{}, memos: map[*ssa.Function][]*memoEntry{}, prof: map[*ssa.Function]*profile{}, prog: prog, cfg: cfg, globals: map[*ssa.Global]ObjID{}, pinned: map[int64]Atom{},
		fns: map[*ssa.Function]*fnInfo{}, allocs: map[allocKey]ObjID{}, log: newLog()}
	an.deadline = time.Now().Add(cfg.limit())
	an.findThresholds()
	an.findConstFields()
	return an
}

// findThresholds collects the constants integers are compared with.
func (an *Analysis) findThresholds() {
	set := map[int64]bool{0: true, 1: true, -1: true, 255: true}
	for _, f := range an.prog.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				op, ok := in.(*ssa.BinOp)
				if !ok || !isIntType(op.X.Type()) {
					continue
				}
				switch op.Op.String() {
				case "<", "<=", ">", ">=":
				default:
					continue
				}
				for _, v := range []ssa.Value{op.X, op.Y} {
					if c, ok := v.(*ssa.Const); ok && c.Value != nil {
						if i, ok := isConstInt(an.constVal(c)); ok && abs64(i) < 1<<40 {
							set[i], set[i-1], set[i+1] = true, true, true
						}
					}
				}
			}
		}
	}
	set[1<<31-1], set[1<<32-1], set[1<<48] = true, true, true
	for k := range set {
		an.thresholds = append(an.thresholds, k)
	}
	an.coarse = []int64{-1, 0, 1, 127, 255, 1<<16 - 1, 1<<31 - 1, 1<<32 - 1, 1 << 48}
	sort.Slice(an.thresholds, func(i, j int) bool { return an.thresholds[i] < an.thresholds[j] })
}

// coarser gives the thresholds left at the current strictness.
func (an *Analysis) coarser() []int64 {
	switch an.strict {
	case 1:
		return an.coarse
	case 2:
		return []int64{-1, 0, 255, 1<<16 - 1, 1<<31 - 1, 1 << 48}
	case 3:
		return []int64{-1, 0, 255, 1 << 48}
	}
	return nil
}

// findConstFields lists the integer fields that only ever receive constants
// and take part in arithmetic or name a case: their value belongs in the partition key.
func (an *Analysis) findConstFields() {
	type info struct{ stored, nonConst, arith, named bool }
	m := map[string]*info{}
	get := func(k string) *info {
		if m[k] == nil {
			m[k] = &info{}
		}
		return m[k]
	}
	key := func(fa *ssa.FieldAddr) string {
		pt := fa.X.Type().Underlying().(*types.Pointer).Elem()
		return fieldKey(pt, fa.Field)
	}
	for _, f := range an.prog.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok && isIntType(x.Val.Type()) {
						i := get(key(fa))
						i.stored = true
						_, i.named = types.Unalias(x.Val.Type()).(*types.Named)
						if _, ok := x.Val.(*ssa.Const); !ok {
							i.nonConst = true
						}
					}
				case *ssa.UnOp:
					if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op.String() == "*" && isIntType(x.Type()) {
						for _, r := range *x.Referrers() {
							if bo, ok := r.(*ssa.BinOp); ok {
								switch bo.Op.String() {
								case "+", "-", "*", "<<", ">>":
									get(key(fa)).arith = true
								}
							}
						}
					}
				case *ssa.FieldAddr:
					// an address that escapes disqualifies the field
					for _, r := range *x.Referrers() {
						switch y := r.(type) {
						case *ssa.UnOp, *ssa.DebugRef:
						case *ssa.Store:
							if y.Val == x {
								get(key(x)).nonConst = true
							}
						default:
							get(key(x)).nonConst = true
						}
					}
				}
			}
		}
	}
	an.constField = map[string]bool{}
	for k, i := range m {
		if i.stored && !i.nonConst && (i.arith || i.named) {
			an.constField[k] = true
		}
	}
}

var fieldKeys sync.Map

func fieldKey(t types.Type, f int) string {
	type key struct {
		t types.Type
		f int
	}
	if s, ok := fieldKeys.Load(key{t, f}); ok {
		return s.(string)
	}
	s := fmt.Sprintf("%s#%d", t.String(), f)
	fieldKeys.Store(key{t, f}, s)
	return s
}

// ---- function information ----

type fnInfo struct {
	fn     *ssa.Function
	vals   []ssa.Value
	idx    map[ssa.Value]int
	liveIn [][]bool // after the phis
	after  map[ssa.Instruction][]bool
	wto    []comp
	ints   int                                          // 1: reads no integers out of arrays, 2: does
	inLoop map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // head -> members
}

type comp struct {
	head *ssa.BasicBlock
	loop bool
	body []comp
}

func (an *Analysis) info(fn *ssa.Function) *fnInfo {
	if fi := an.fns[fn]; fi != nil {
		return fi
	}
	fi := &fnInfo{fn: fn, idx: map[ssa.Value]int{}, after: map[ssa.Instruction][]bool{}, inLoop: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	add := func(v ssa.Value) {
		fi.idx[v] = len(fi.vals)
		fi.vals = append(fi.vals, v)
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	fi.liveness()
	fi.wto = buildWTO(fn)
	var mem func(c comp) []*ssa.BasicBlock
	mem = func(c comp) []*ssa.BasicBlock {
		out := []*ssa.BasicBlock{c.head}
		for _, s := range c.body {
			out = append(out, mem(s)...)
		}
		if c.loop {
			m := map[*ssa.BasicBlock]bool{}
			for _, b := range out {
				m[b] = true
			}
			fi.inLoop[c.head] = m
		}
		return out
	}
	for _, c := range fi.wto {
		mem(c)
	}
	an.fns[fn] = fi
	return fi
}

func (fi *fnInfo) liveness() {
	fn := fi.fn
	n := len(fi.vals)
	nb := len(fn.Blocks)
	fi.liveIn = make([][]bool, nb)
	for i := range fi.liveIn {
		fi.liveIn[i] = make([]bool, n)
	}
	use := func(live []bool, in ssa.Instruction) {
		var buf [16]*ssa.Value
		for _, op := range in.Operands(buf[:0]) {
			if *op == nil {
				continue
			}
			if i, ok := fi.idx[*op]; ok {
				live[i] = true
			}
		}
	}
	out := func(b *ssa.BasicBlock) []bool {
		live := make([]bool, n)
		for _, s := range b.Succs {
			// which predecessor index are we? (an edge may appear twice)
			for i, l := range fi.liveIn[s.Index] {
				if l {
					live[i] = true
				}
			}
			for _, in := range s.Instrs {
				if phi, ok := in.(*ssa.Phi); ok {
					live[fi.idx[phi]] = false
				}
			}
		}
		for _, s := range b.Succs {
			for pi, p := range s.Preds {
				if p != b {
					continue
				}
				for _, in := range s.Instrs {
					phi, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					if i, ok := fi.idx[phi.Edges[pi]]; ok {
						live[i] = true
					}
				}
			}
		}
		return live
	}
	for changed := true; changed; {
		changed = false
		for bi := nb - 1; bi >= 0; bi-- {
			b := fn.Blocks[bi]
			live := out(b)
			for i := len(b.Instrs) - 1; i >= 0; i-- {
				in := b.Instrs[i]
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				if _, ok := in.(*ssa.Call); ok {
					fi.after[in] = append([]bool(nil), live...)
				}
				if v, ok := in.(ssa.Value); ok {
					live[fi.idx[v]] = false
				}
				use(live, in)
			}
			for i := range live {
				if live[i] && !fi.liveIn[bi][i] {
					fi.liveIn[bi][i] = true
					changed = true
				}
			}
		}
	}
	// phis of a loop head that is its own successor: out() drops phi results
	// of the successor, which are redefined on the edge anyway.
}

// buildWTO computes a weak topological order (Bourdoncle).
func buildWTO(fn *ssa.Function) []comp {
	dfn := map[*ssa.BasicBlock]int{}
	num := 0
	var stack []*ssa.BasicBlock
	const inf = 1 << 30
	var visit func(b *ssa.BasicBlock, out *[]comp) int
	component := func(b *ssa.BasicBlock) comp {
		var body []comp
		for _, s := range b.Succs {
			if dfn[s] == 0 {
				visit(s, &body)
			}
		}
		return comp{head: b, loop: true, body: body}
	}
	visit = func(b *ssa.BasicBlock, out *[]comp) int {
		stack = append(stack, b)
		num++
		dfn[b] = num
		head := num
		loop := false
		for _, s := range b.Succs {
			m := dfn[s]
			if m == 0 {
				m = visit(s, out)
			}
			if m <= head {
				head = m
				loop = true
			}
		}
		if head == dfn[b] {
			dfn[b] = inf
			e := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if loop {
				for e != b {
					dfn[e] = 0
					e = stack[len(stack)-1]
					stack = stack[:len(stack)-1]
				}
				*out = append([]comp{component(b)}, *out...)
			} else {
				*out = append([]comp{{head: b}}, *out...)
			}
		}
		return head
	}
	var out []comp
	visit(fn.Blocks[0], &out)
	return out
}

// ---- obligations ----

func (an *Analysis) wants(kind string) bool {
	switch kind {
	case "window":
		return an.cfg.Window
	case "rank":
		return an.cfg.Rank
	case "pack", "token":
		return an.cfg.Pack
	case "wrap":
		return an.cfg.Wrap
	case "undecided", "assert":
		return true
	}
	if strings.HasPrefix(kind, "same:") {
		return true
	}
	return an.cfg.Safety
}

func (an *Analysis) oblig(kind string, in ssa.Instruction, ok bool, format string, args ...any) {
	if !an.wants(kind) {
		return
	}
	k := obKey{kind, in}
	o := an.log.obs[k]
	if o == nil {
		o = &obRes{ok: true}
		an.log.obs[k] = o
	}
	o.n++
	if !ok && o.ok {
		o.ok = false
		o.msg = fmt.Sprintf(format, args...)
	}
}

func (an *Analysis) undecided(in ssa.Instruction, format string, args ...any) {
	an.oblig("undecided", in, false, format, args...)
}

// Timeout is the panic value of an analysis that ran out of time.
type Timeout struct{ msg string }

func (t Timeout) Error() string { return t.msg }

func (an *Analysis) tick() {
	an.stats.blocks++
	if an.stats.blocks&255 == 0 && time.Now().After(an.deadline) {
		panic(Timeout{"the analysis ran out of time"})
	}
}

// Run analyses from the entry function and reports into rep.
func (an *Analysis) Run(entry *ssa.Function, rep *core.Report, rule string) {
	st := &State{an: an, sys: newSys(an), sysOwn: true, hOwn: true}
	an.harness = entry.Pkg.Pkg
	an.initGlobals(st)
	if ini := entry.Pkg.Func("init"); ini != nil {
		var nx []*State
		for _, s := range an.runInit(st, ini) {
			nx = append(nx, s)
		}
		if len(nx) == 0 {
			an.log.obs[obKey{"undecided", entry.Blocks[0].Instrs[0]}] = &obRes{msg: "package initialisation does not end"}
		} else {
			st = nx[0]
			for _, o := range nx[1:] {
				st = an.join(st, o, false)
			}
		}
	}
	st.frames = nil
	out := an.call(st, entry, nil, nil, nil)
	an.fresh += len(out)
	an.memoFinish()
	an.Finish(rep, rule)
	rep.Count("states at the end of "+entry.Name(), len(out))
}

// Finish moves the obligations into the report.
func (an *Analysis) Finish(rep *core.Report, rule string) {
	kinds := map[string]int{}
	for k, o := range an.log.obs {
		if k.in != nil && k.in.Parent() != nil && core.FuncPkg(k.in.Parent()) == an.harness && k.kind != "assert" && k.kind != "undecided" && k.kind != "window" && k.kind != "token" && !strings.HasPrefix(k.kind, "same:") {
			if o.ok {
				continue
			}
		}
		rep.Obligations++
		kinds[k.kind]++
		if o.ok {
			rep.Discharged++
			continue
		}
		rep.Fail(rule+"/"+k.kind, an.prog.InstrPos(k.in), an.prog.Short(k.in.Parent()), "%s", o.msg)
	}
	for k, n := range kinds {
		rep.Count("obligations: "+k, n)
	}
	fs := map[string]bool{}
	for f := range an.log.funcs {
		if core.FuncPkg(f) != an.harness {
			fs[an.prog.Short(f)] = true
		}
	}
	var names []string
	if old, ok := rep.Coverage["functions"].([]string); ok {
		for _, n := range old {
			fs[n] = true
		}
	}
	for n := range fs {
		names = append(names, n)
	}
	sort.Strings(names)
	rep.Coverage["functions"] = names
	rep.Coverage["functions_analysed"] = len(names)
	rep.Count("abstract block executions", an.stats.blocks)
	rep.Count("joins", an.stats.joins)
	rep.Count("inclusion tests", an.stats.incl)
	rep.Count("calls analysed in context", an.stats.calls)
}

func short(s string) string {
	if i := strings.LastIndex(s, "/"); i >= 0 {
		return s[i+1:]
	}
	return s
}

func (c Config) limit() time.Duration {
	if c.Limit > 0 {
		return c.Limit
	}
	return 780 * time.Second
}
