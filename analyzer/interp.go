package main

import (
	"fmt"
	"os"
	"regexp"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"verif/analyzer/absint"
	"verif/analyzer/core"
	"verif/analyzer/harness"
)

var moduleRe = regexp.MustCompile(`(?m)^module\s+(\S+)`)

// interpret runs the abstract interpreter from every harness entry whose name
// starts with one of the prefixes, each in a goroutine of its own.
func interpret(e *env, rule string, cfg absint.Config, prefixes ...string) *core.Report {
	mod, err := os.ReadFile(e.repo + "/go.mod")
	if err != nil {
		panic(undecided(err.Error()))
	}
	m := moduleRe.FindStringSubmatch(string(mod))
	if m == nil {
		panic(undecided("go.mod names no module"))
	}
	prog, err := core.Load(e.repo, harness.Overlay(e.repo, m[1]))
	if err != nil {
		panic(undecided(err.Error()))
	}
	hp := prog.SSA.ImportedPackage(harness.Path(m[1]))
	if hp == nil {
		panic(undecided("the harness package is missing"))
	}
	cfg.Debug = e.debug
	cfg.Profile = e.stats
	if v := os.Getenv("VERIF_LIMIT"); v != "" {
		cfg.Limit, _ = time.ParseDuration(v)
	}
	var entries []string
	for name := range hp.Members {
		for _, p := range prefixes {
			if strings.HasPrefix(name, p) && hp.Func(name) != nil && (e.entry == "" || e.entry == name) {
				entries = append(entries, name)
				break
			}
		}
	}
	sort.Strings(entries)
	total := core.NewReport()
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for _, name := range entries {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			rep := core.NewReport()
			start := time.Now()
			func() {
				defer func() {
					if x := recover(); x != nil {
						rep.Fail("undecided", "-", name, "the analysis of %s could not decide: %v", name, x)
						if _, ok := x.(absint.Timeout); !ok {
							fmt.Fprintf(os.Stderr, "%v\n%s\n", x, debug.Stack())
						}
					}
				}()
				an := absint.New(prog, cfg)
				if e.stats {
					defer an.Profile()
				}
				an.Run(hp.Func(name), rep, rule)
			}()
			if e.stats {
				fmt.Printf("%s: %.1fs\n", name, time.Since(start).Seconds())
			}
			mu.Lock()
			total.Merge(rep)
			mu.Unlock()
		}()
	}
	wg.Wait()
	total.Coverage["entries"] = entries
	total.Count("entry functions", len(entries))
	if e.entry == "" {
		total.Floor("coverage", "entry functions", 1)
		total.Floor("coverage", "obligations in total", 1)
	}
	return total
}

const ruleCommon = "Abstract interpretation of the SSA form of the library from the harness entry functions (harness/src), " +
	"which stand for an arbitrary caller: their v* intrinsics are arbitrary values. The state is symbolic memory (objects, slices, " +
	"arrays with an element summary) over a conjunction of linear constraints on integers; calls are analysed in context, loops to " +
	"a fixed point with widening. "

const ruleReaders = ruleCommon + "Obligation at every instruction that can panic (nil, index, slice, division, shift, make, type " +
	"assertion, explicit panic) and at every read of the document: the state proves that it cannot fail, and that the index lies " +
	"inside the window."

const ruleBuffers = ruleCommon + "Obligation at every instruction that can panic, and at every harness assertion about what the " +
	"operations return: the state proves it."

const ruleNav = ruleCommon + "Obligation at every instruction that can panic: the state proves that it cannot."

const ruleNavRank = ruleCommon + "Obligation at every loop: a lexicographic combination of linear measures over the integers in " +
	"the state (registers, lengths, fields) is bounded below and decreases along every cycle of transitions between the loop's partitions. " +
	"Recursion is refused."

const ruleToken = ruleCommon + "The parser's buffers and character classes are replaced by contracts, which the checks of C01 " +
	"and C10 establish for the real ones. Obligation at every bitwise or, and shift, that builds a 64-bit word in the parser: the " +
	"operands share no bit and lose none. Obligation at every record appended to the token buffer: its offset and length (whose place the " +
	"token type in it decides) lie inside the window."

const ruleWrap = ruleCommon + "The parser's buffers and character classes are replaced by contracts, which the checks of C01 and " +
	"C10 establish for the real ones. Obligation at every addition, multiplication and shift of characters, and of any integer that is " +
	"worked out from itself through a multiplication or a shift (a number read digit by digit), in the parser and the navigator: the " +
	"exact result is in the range of the type."

const ruleParse = ruleCommon + "The parser's buffers and character classes are replaced by contracts, which other entries " +
	"establish for the real ones in the same run. Obligation at every instruction that can panic, and at every harness assertion: " +
	"the state proves that it cannot fail."

const ruleFront = ruleCommon + "The parser's buffers and character classes are replaced by contracts, which the checks of C01 and " +
	"C10 establish for the real ones. Ghost state: how far the document has been read without a gap. Obligation where Parse has returned " +
	"nil: that is the end of the window."

const ruleParseRank = ruleNavRank + " The parser's buffers and character classes are replaced by contracts; the loops of the real " +
	"ones are decided from entries of their own in the same run."

const ruleNavSame = ruleCommon + "The harness takes a snapshot of the cursor before a move and compares after one that reported " +
	"false or an error. Obligation per field: the state proves that it has the value of the snapshot, and per slice that no element was written."
