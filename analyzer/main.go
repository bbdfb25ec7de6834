package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
)

func load(dir string, flags ...string) (*Prog, error) {
	fset := token.NewFileSet()
	cfg := &packages.Config{Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedDeps,
		Dir: dir, Fset: fset, BuildFlags: flags}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	p := &Prog{fset: fset, pkgs: map[string]*packages.Package{}, funcs: map[*types.Func]*FuncInfo{}, names: map[string]*FuncInfo{}, root: dir, sized: map[string]bool{}, closed: map[string]bool{}}
	var bad error
	packages.Visit(pkgs, nil, func(pk *packages.Package) {
		if !strings.HasPrefix(pk.PkgPath, modPath) {
			return
		}
		for _, e := range pk.Errors {
			bad = fmt.Errorf("%v", e)
		}
		p.pkgs[pk.PkgPath] = pk
		for _, f := range pk.Syntax {
			ast.Inspect(f, func(n ast.Node) bool {
				if x, ok := n.(*ast.CallExpr); ok && len(x.Args) == 1 {
					if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "close" {
						if t := pk.TypesInfo.TypeOf(x.Args[0]); t != nil {
							if ch, ok := t.Underlying().(*types.Chan); ok {
								p.closed[types.TypeString(ch.Elem(), nil)] = true
							}
						}
					}
					if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "len" {
						if t := pk.TypesInfo.TypeOf(x.Args[0]); t != nil {
							if _, ok := t.Underlying().(*types.Map); ok {
								p.sized[types.TypeString(t.Underlying(), nil)] = true
							}
						}
					}
				}
				return true
			})
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok {
					continue
				}
				fn, ok := pk.TypesInfo.Defs[fd.Name].(*types.Func)
				if !ok {
					continue
				}
				fi := &FuncInfo{fn, fd, pk}
				p.funcs[fn] = fi
				p.names[funcName(fn)] = fi
			}
		}
	})
	return p, bad
}

// property checks, by id
var checks = map[string]func(*Ck){}
var checkDoc = map[string]string{} // what the check does not cover
var ruleDoc = map[string]string{}

var repoDir = func() string {
	if d := os.Getenv("DYCHECK_DEV_REPO"); d != "" {
		return d
	}
	return "/repo"
}()

func main() {
	if len(os.Args) > 2 && os.Args[1] == "check" {
		os.Exit(runCheck(os.Args[2]))
	}
	if len(os.Args) > 2 && os.Args[1] == "debug" {
		longOut = os.Getenv("LONG") != ""
		p, err := load(repoDir)
		if err != nil {
			fmt.Println("load:", err)
			os.Exit(3)
		}
		runs := map[string]*Run{}
		for _, prop := range os.Args[2:] {
			c := newCk(prop, p)
			if prop != "P19" { // its runs keep other calls closed
				c.runs = runs
			}
			c.exec()
			c.print()
		}
		return
	}
	p, err := load(repoDir)
	if err != nil {
		fmt.Println("load:", err)
		os.Exit(3)
	}
	it := p.analyseOpt(os.Args[1], func(it *Interp) {
		inlining(strings.Fields(os.Getenv("INLINE"))...)(it)
		keeping(strings.Fields(os.Getenv("OPAQUE"))...)(it)
	})
	it.dump(os.Args[2:]...)
}

// inlining analyses the named boundary functions as part of their callers.
func inlining(names ...string) func(*Interp) {
	return func(it *Interp) {
		for _, n := range names {
			it.inlineToo[n] = true
		}
	}
}

func newCk(prop string, p *Prog) *Ck {
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	return &Ck{prop: prop, tier: tier, prog: p, runs: map[string]*Run{}, rules: map[string]int{}, anal: map[string]bool{}, extra: map[string]int{}}
}

// exec runs the check; a construct the engine cannot follow is a failed obligation, never a pass.
func (c *Ck) exec() {
	f := checks[c.prop]
	if f == nil {
		c.fail("internal", c.prop, "no check for %s", c.prop)
		return
	}
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(abort); ok {
				return
			}
			st := strings.Split(string(debug.Stack()), "\n")
			if len(st) > 24 {
				st = st[:24]
			}
			c.fail("undecided", c.prop, "analysis stopped: %v\n%s", e, strings.Join(st, "\n"))
		}
	}()
	f(c)
}

func (c *Ck) print() {
	fmt.Printf("property %s: %d obligations, %d rules, functions %v\n", c.prop, c.obl, len(c.rules), sortedKeys(c.anal))
	for _, f := range c.finds {
		fmt.Printf("  FAIL [%s] %s: %s\n", f.rule, f.site, f.text)
	}
}

type knownFinding struct {
	Property string `json:"property"`
	Rule     string `json:"rule"`
	Site     string `json:"site"`
	What     string `json:"what"`
}

func runCheck(prop string) int {
	t0 := time.Now()
	vdir := os.Getenv("VERIF_DIR")
	if vdir == "" {
		vdir = "/verif"
	}
	p, err := load(repoDir)
	var c *Ck
	if err != nil {
		c = newCk(prop, p)
		c.fail("load", "module", "the module does not type-check: %v", err)
	} else {
		c = newCk(prop, p)
		c.exec()
	}
	var known []knownFinding
	if b, err := os.ReadFile(filepath.Join(vdir, "known-findings.json")); err == nil {
		var f struct {
			Findings []knownFinding `json:"findings"`
		}
		if json.Unmarshal(b, &f) == nil {
			known = f.Findings
		}
	}
	viol := 0
	told := map[string]bool{}
	var vtexts []string
	for _, f := range c.finds {
		for _, k := range known {
			if k.Property == prop && k.Rule == f.rule && k.Site == f.site {
				f.known = true
				if told[k.What] {
					continue
				}
				told[k.What] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.What)
			}
		}
		if !f.known {
			viol++
			vtexts = append(vtexts, fmt.Sprintf("[%s] %s: %s", f.rule, f.site, f.text))
		}
	}
	fns := sortedKeys(c.anal)
	fmt.Printf("%s: analysed %d functions (%s); %d obligations under %d rules\n", prop, len(fns), strings.Join(fns, ", "), c.obl, len(c.rules))
	for _, r := range sortedKeys(c.rules) {
		fmt.Printf("  %-34s %d\n", r, c.rules[r])
	}
	writeEvidence(vdir, c, fns, time.Since(t0).Seconds(), viol, len(c.finds)-viol)
	if viol > 0 {
		rp := filepath.Join(vdir, "evidence", prop+".violation.txt")
		os.WriteFile(rp, []byte(strings.Join(vtexts, "\n\n")+"\n"), 0644)
		for _, v := range vtexts {
			fmt.Println("  " + v)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
		return 1
	}
	os.Remove(filepath.Join(vdir, "evidence", prop+".violation.txt"))
	fmt.Printf("OK property=%s\n", prop)
	return 0
}

func writeEvidence(vdir string, c *Ck, fns []string, wall float64, viol, known int) {
	cov := map[string]interface{}{
		"explanation":         "static analysis of /repo's current source: every obligation of the rules below was decided from the normal form of the analysed functions; " + checkDoc[c.prop],
		"functions_analysed":  len(fns),
		"functions":           fns,
		"obligations":         c.obl,
		"obligations_by_rule": c.rules,
		"rules":               len(c.rules),
		"known_findings":      known,
	}
	if len(c.samples) > 0 {
		cov["notes"] = c.samples
	}
	for _, k := range sortedKeys(c.extra) {
		cov[strings.ReplaceAll(k, " ", "_")] = c.extra[k]
	}
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	ev := map[string]interface{}{
		"property": c.prop, "tier": c.tier, "seed": seed, "level": "other", "coverage": cov, "wall_s": wall, "violations": viol,
		"assumptions": []string{
			"standard library, third-party packages and the bls/polycommit primitives behave as their documented contracts (modelled, see DESIGN.md)",
			"N = 3F+1 and F >= 1; protobuf, KZG, threshold signatures and hashing are abstract (collision-free) operations",
		},
	}
	b, _ := json.MarshalIndent(ev, "", "  ")
	os.MkdirAll(filepath.Join(vdir, "evidence"), 0755)
	os.WriteFile(filepath.Join(vdir, "evidence", c.prop+".json"), append(b, '\n'), 0644)
}

var _ = sort.Strings
