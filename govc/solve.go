package main

import (
	syncatomic "sync/atomic"
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

func sortStrings(x []string) { sort.Strings(x) }

// ---------- building a ground query ----------

type query struct {
	pool         *termPool
	budget       int
	ex           *Exec
	asserts      []*Term
	seen         map[*Term]bool
	facts        []*Term
	terms        map[*Term]bool
	unfoldedApps map[*Term]bool
}

// polarity-aware quantifier treatment
func (q *query) skolem(t *Term, pos bool) *Term {
	if !t.quant {
		return t
	}
	switch t.op {
	case ONot:
		// negation normal form, so that no quantifier stays below a negation
		x := t.args[0]
		nots := func() []*Term {
			out := make([]*Term, len(x.args))
			for i, a := range x.args {
				out[i] = Not(a)
			}
			return out
		}
		switch {
		case x.op == OAnd:
			return q.skolem(Or(nots()...), pos)
		case x.op == OOr:
			return q.skolem(And(nots()...), pos)
		case x.op == OIte && x.sort == BoolS && !x.args[0].quant:
			return q.skolem(Ite(x.args[0], Not(x.args[1]), Not(x.args[2])), pos)
		case x.op == OEq && x.args[0].sort == BoolS:
			a, b := x.args[0], x.args[1]
			return q.skolem(And(Or(a, b), Or(Not(a), Not(b))), pos)
		}
		return Not(q.skolem(x, !pos))
	case OAnd, OOr:
		out := make([]*Term, len(t.args))
		for i, a := range t.args {
			out[i] = q.skolem(a, pos)
		}
		if t.op == OAnd {
			return And(out...)
		}
		return Or(out...)
	case OIte:
		if t.sort == BoolS && !t.args[0].quant {
			return Ite(t.args[0], q.skolem(t.args[1], pos), q.skolem(t.args[2], pos))
		}
		if t.sort == BoolS {
			c := t.args[0]
			return q.skolem(And(Imp(c, t.args[1]), Or(c, t.args[2])), pos)
		}
	case OForall:
		if !pos {
			s := NewSym("sk", t.args[0].sort, nil)
			m := map[*Term]*Term{t.args[0]: s}
			return q.skolem(Imp(Subst(t.args[1], m), Subst(t.args[2], m)), pos)
		}
		return t
	case OEq:
		if t.args[0].sort == BoolS {
			a, b := t.args[0], t.args[1]
			return q.skolem(And(Imp(a, b), Imp(b, a)), pos)
		}
	}
	return t
}

// instantiate replaces positive universal subformulas by their ground instances.
func (q *query) instantiate(t *Term, cands map[*Sort][]*Term, depth int) *Term {
	if !t.quant {
		return t
	}
	switch t.op {
	case OAnd, OOr:
		out := make([]*Term, len(t.args))
		for i, a := range t.args {
			out[i] = q.instantiate(a, cands, depth)
		}
		if t.op == OAnd {
			return And(out...)
		}
		return Or(out...)
	case OIte:
		if t.sort == BoolS && !t.args[0].quant {
			return Ite(t.args[0], q.instantiate(t.args[1], cands, depth), q.instantiate(t.args[2], cands, depth))
		}
	case OForall:
		var out []*Term
		v := t.args[0]
		list := cands[candSort(v.sort)]
		if q.pool != nil {
			list = q.pool.matches(t)
		}
		if q.budget <= 0 {
			return True
		}
		q.budget -= len(list)
		for _, c := range list {
			m := map[*Term]*Term{v: c}
			g := Imp(Subst(t.args[1], m), Subst(t.args[2], m))
			g = q.skolem(g, true)
			if g.quant && depth > 0 {
				g = q.instantiate(g, cands, depth-1)
			}
			if g.quant {
				g = weaken(g)
			}
			out = append(out, g)
		}
		return And(out...)
	}
	// a quantifier in an unsupported position: drop the hypothesis
	return True
}

// weaken drops the quantified parts of a hypothesis in negation normal form.
func weaken(t *Term) *Term {
	if !t.quant {
		return t
	}
	switch t.op {
	case OAnd, OOr:
		out := make([]*Term, len(t.args))
		for i, a := range t.args {
			out[i] = weaken(a)
		}
		if t.op == OAnd {
			return And(out...)
		}
		return Or(out...)
	case OIte:
		if t.sort == BoolS && !t.args[0].quant {
			return Ite(t.args[0], weaken(t.args[1]), weaken(t.args[2]))
		}
	}
	return True
}

func mentionsSkolem(t *Term) bool {
	found := false
	walk(t, map[*Term]bool{}, func(x *Term) {
		found = found || x.op == OVar && strings.HasPrefix(x.name, "sk!")
	})
	return found
}

func candSort(s *Sort) *Sort {
	if s.Kind == SInt {
		if s.Ref {
			return RefS
		}
		if s == IfaceS {
			return IfaceS
		}
		return IntS
	}
	return s
}

// specNames collects the specification and library function names of a term.
func specNames(t *Term, out map[string]bool) {
	walk(t, map[*Term]bool{}, func(x *Term) {
		if x.op == OSpec {
			out[x.name] = true
		}
	})
}

// buildLean is a first, small query: universally quantified hypotheses are used only when they mention a
// specification function of the goal, and only at the goal's own index terms.
func buildLean(ex *Exec, o *Oblig, fuel int) *query {
	if !o.Goal.quant {
		return nil
	}
	gn := map[string]bool{}
	specNames(o.Goal, gn)
	if len(gn) == 0 {
		return nil
	}
	n := *o
	n.Hyps = nil
	for _, h := range o.Hyps {
		if h.quant {
			hn := map[string]bool{}
			specNames(h, hn)
			keep := false
			for k := range hn {
				keep = keep || gn[k]
			}
			if !keep {
				continue
			}
		}
		n.Hyps = append(n.Hyps, h)
	}
	return buildQuery2(ex, &n, fuel, false, true)
}

func buildQuery(ex *Exec, o *Oblig, fuel int, wide bool) *query {
	return buildQuery2(ex, o, fuel, wide, false)
}

// buildSmall instantiates hypotheses with the terms of the goal only.
func buildSmall(ex *Exec, o *Oblig) *query {
	n := *o
	n.small = true
	return buildQuery2(ex, &n, 1, false, false)
}

// termPool indexes ground terms by the positions they occur in (a light form of E-matching).
type termPool struct {
	// strict: the other arguments of the term must agree too
	strict bool
	in     map[string][]*Term
	at   map[string][]*Term
	has  map[string]map[*Term]bool
	seen map[*Term]bool
}

func newTermPool() *termPool {
	return &termPool{in: map[string][]*Term{}, at: map[string][]*Term{}, has: map[string]map[*Term]bool{}, seen: map[*Term]bool{}}
}

func (p *termPool) add(t *Term) {
	walk(t, p.seen, func(x *Term) {
		for i, a := range x.args {
			if a.bound {
				continue
			}
			if key := patKey(x, i); key != "" {
				p.in[key] = append(p.in[key], x)
				if p.has[key] == nil {
					p.has[key] = map[*Term]bool{}
				}
				if !p.has[key][a] {
					p.has[key][a] = true
					p.at[key] = append(p.at[key], a)
				}
			}
		}
	})
}

// patKey names the argument position i of x.
func patKey(x *Term, i int) string {
	switch x.op {
	case OApp, OSpec:
		return fmt.Sprint("a", i, ":", x.name)
	case OSelect:
		if i == 1 {
			return "s:" + arrBase(x.args[0])
		}
	case ONth:
		if i == 1 {
			return "n:" + x.args[0].sort.Smt
		}
	}
	return ""
}

// arrBase is the heap map or variable an array comes from, whatever its version.
func arrBase(t *Term) string {
	switch t.op {
	case OVar:
		n := t.name
		if i := strings.Index(n, "_"); i > 0 && i <= 3 {
			n = n[i+1:]
		}
		if i := strings.LastIndex(n, "!"); i > 0 {
			n = n[:i]
		}
		return n
	case OSelect, OSel:
		return arrBase(t.args[0]) + "*"
	}
	return t.sort.Smt
}

// agree: whether ground term y can be an instance of x, argument i aside, without equational reasoning
// (versions of the same heap map count as equal).
func agree(x, y *Term, i int) bool {
	if len(x.args) != len(y.args) {
		return false
	}
	for k, a := range x.args {
		if k == i || a.bound {
			continue
		}
		b := y.args[k]
		if a == b {
			continue
		}
		if a.sort.Kind == SArray && b.sort.Kind == SArray && arrBase(a) == arrBase(b) {
			continue
		}
		if seqBase(a) != "" && seqBase(a) == seqBase(b) {
			continue
		}
		return false
	}
	return true
}

// seqBase is the field a sequence is read from.
func seqBase(t *Term) string {
	switch t.op {
	case OSelect:
		return "f:" + arrBase(t.args[0])
	case OSel:
		return fmt.Sprint(t.name, t.n, "(", seqBase(t.args[0]), ")")
	}
	return ""
}

// matches: the ground terms at the positions the bound variable of t occurs in.
func (p *termPool) matches(t *Term) []*Term {
	v := t.args[0]
	var out []*Term
	got := map[*Term]bool{}
	keys := map[string]bool{}
	seen := map[*Term]bool{}
	var rec func(x *Term)
	rec = func(x *Term) {
		if seen[x] || !x.bound {
			return
		}
		seen[x] = true
		for i, a := range x.args {
			off, ok := int64(0), a == v
			if !ok && a.op == OAdd && len(a.args) == 1 && a.args[0] == v && a.coefs[0] == 1 {
				off, ok = a.n, true
			}
			if ok {
				key := patKey(x, i)
				if kk := fmt.Sprint(key, "/", off); key != "" && !keys[kk] {
					keys[kk] = true
					list := p.at[key]
					if p.strict {
						list = nil
						had := map[*Term]bool{}
						for _, y := range p.in[key] {
							if !had[y.args[i]] && !y.args[i].bound && agree(x, y, i) {
								had[y.args[i]] = true
								list = append(list, y.args[i])
							}
						}
					}
					for _, c := range list {
						if off != 0 {
							c = AddN(c, -off)
						}
						if !got[c] && candSort(c.sort) == candSort(v.sort) {
							got[c] = true
							out = append(out, c)
						}
					}
				}
			}
			rec(a)
		}
	}
	rec(t.args[1])
	rec(t.args[2])
	if len(out) > 24 {
		sort.SliceStable(out, func(i, j int) bool {
			a, b := mentionsSkolem(out[i]), mentionsSkolem(out[j])
			if a != b {
				return a
			}
			return out[i].id > out[j].id
		})
		out = out[:24]
	}
	return out
}

// buildTrig instantiates hypotheses where a ground term occurs in a position of the bound variable.
func buildTrig(ex *Exec, o *Oblig, strict bool) *query {
	q := &query{ex: ex, seen: map[*Term]bool{}, terms: map[*Term]bool{}, unfoldedApps: map[*Term]bool{}, pool: newTermPool(), budget: 2500}
	q.pool.strict = strict
	var ground, quant []*Term
	done := map[*Term]bool{}
	add := func(ts ...*Term) {
		for _, t := range ts {
			if t == True || done[t] {
				continue
			}
			done[t] = true
			if t.quant {
				quant = append(quant, t)
			} else {
				ground = append(ground, t)
				q.pool.add(t)
			}
		}
	}
	for _, h := range append(append([]*Term{}, o.Hyps...), Not(o.Goal)) {
		t := q.skolem(h, true)
		if t.op == OAnd {
			add(t.args...)
		} else {
			add(t)
		}
	}
	unfolded := map[*Term]bool{}
	for round := 0; round < 3; round++ {
		if round < 2 {
			var apps []*Term
			seen := map[*Term]bool{}
			for _, t := range ground {
				walk(t, seen, func(x *Term) {
					if x.op == OSpec && !x.bound && !unfolded[x] {
						apps = append(apps, x)
					}
				})
			}
			for _, a := range apps {
				unfolded[a] = true
				if !ex.opaque(a) {
					add(q.skolem(ex.unfold(a), true))
				}
			}
		}
		for _, t := range append([]*Term{}, quant...) {
			g := q.instantiate(t, nil, 3)
			if g.op == OAnd {
				add(g.args...)
			} else {
				add(g)
			}
		}
		var ax []*Term
		seen := map[*Term]bool{}
		for _, t := range ground {
			walk(t, seen, func(x *Term) {
				if !x.bound {
					ax = append(ax, axiomsFor(ex, x)...)
				}
			})
		}
		for _, a := range ax {
			add(q.skolem(a, true))
		}
		if os.Getenv("GOVC_TIMES") != "" {
			fmt.Fprintf(os.Stderr, "    trig %v %s round %d: %d ground %d quant, budget %d\n", strict, o.Label, round, len(ground), len(quant), q.budget)
		}
		if q.budget <= 0 {
			return nil
		}
	}
	q.asserts = ground
	seen := map[*Term]bool{}
	for _, t := range ground {
		walk(t, seen, func(x *Term) {
			if !x.bound {
				q.facts = append(q.facts, rangeFacts(x)...)
			}
		})
	}
	return q
}

func buildQuery2(ex *Exec, o *Oblig, fuel int, wide, lean bool) *query {
	q := &query{ex: ex, seen: map[*Term]bool{}, terms: map[*Term]bool{}, unfoldedApps: map[*Term]bool{}, budget: 30000}
	var top []*Term
	for _, h := range o.Hyps {
		top = append(top, q.skolem(h, true))
	}
	top = append(top, q.skolem(Not(o.Goal), true))
	var flat []*Term
	for _, t := range top {
		if t.op == OAnd {
			flat = append(flat, t.args...)
		} else {
			flat = append(flat, t)
		}
	}
	var ground, quant []*Term
	for _, t := range flat {
		if t.quant {
			quant = append(quant, t)
		} else {
			ground = append(ground, t)
		}
	}
	all := append([]*Term{}, ground...)
	doneInst := map[*Term]bool{}
	addAll := func(ts ...*Term) {
		for _, t := range ts {
			if t == True || doneInst[t] {
				continue
			}
			doneInst[t] = true
			all = append(all, t)
		}
	}
	unfolded := map[*Term]int{}
	for round := 0; round < 4; round++ {
		// unfold specification applications
		for f := 0; f < 1; f++ {
			var apps []*Term
			seen := map[*Term]bool{}
			for _, t := range all {
				walk(t, seen, func(x *Term) {
					if x.op == OSpec && !x.bound {
						if _, ok := unfolded[x]; !ok {
							apps = append(apps, x)
						}
					}
				})
			}
			for _, a := range apps {
				lvl := round
				if lvl >= fuel {
					continue
				}
				unfolded[a] = lvl
				if ex.opaque(a) {
					continue
				}
				u := q.skolem(ex.unfold(a), true)
				if u.quant {
					quant = append(quant, u)
				} else {
					addAll(u)
				}
			}
		}
		if len(quant) > 0 && round < 2 {
			from, fromQ := all, quant
			if o.small {
				if round > 0 {
					continue
				}
				from, fromQ = top[len(top)-1:], nil
			}
			cands := q.candidates(from, fromQ, wide)
			if lean {
				for k, ts := range cands {
					var sk []*Term
					for _, c := range ts {
						if mentionsSkolem(c) {
							sk = append(sk, c)
						}
					}
					cands[k] = sk
				}
			}
			for _, t := range quant {
				depth := 1
				if lean || o.small {
					depth = 3
				}
				g := q.instantiate(t, cands, depth)
				if g.op == OAnd {
					addAll(g.args...)
				} else {
					addAll(g)
				}
			}
		}
		// axioms of library functions
		for k := 0; k < 2; k++ {
			seen := map[*Term]bool{}
			var ax []*Term
			for _, t := range all {
				walk(t, seen, func(x *Term) {
					if !x.bound {
						ax = append(ax, axiomsFor(ex, x)...)
					}
				})
			}
			for _, a := range ax {
				a = q.skolem(a, true)
				if a.quant {
					if !doneInst[a] {
						doneInst[a] = true
						quant = append(quant, a)
					}
					continue
				}
				addAll(a)
			}
		}
	}
	q.asserts = all
	// range facts
	seen := map[*Term]bool{}
	for _, t := range all {
		walk(t, seen, func(x *Term) {
			if x.bound {
				return
			}
			q.facts = append(q.facts, rangeFacts(x)...)
		})
	}
	return q
}

func (q *query) candidates(ground, quant []*Term, wide bool) map[*Sort][]*Term {
	out := map[*Sort][]*Term{}
	has := map[*Term]bool{}
	add := func(t *Term) {
		if t.bound || has[t] {
			return
		}
		has[t] = true
		s := candSort(t.sort)
		out[s] = append(out[s], t)
	}
	seen := map[*Term]bool{}
	visit := func(x *Term) {
		switch x.op {
		case ONth:
			add(x.args[1])
		case OSelect:
			if x.args[1].sort.Kind != SInt || true {
				add(x.args[1])
			}
		case OVar:
			if strings.HasPrefix(x.name, "sk!") {
				add(x)
				if wide && x.sort == IntS {
					add(AddN(x, 1))
					add(AddN(x, -1))
				}
			}
		}
	}
	for _, t := range ground {
		walk(t, seen, visit)
	}
	for _, t := range quant {
		walk(t, seen, visit)
		var rec func(t *Term)
		rec = func(t *Term) {
			if t.op == OForall && t.args[0].sort == IntS {
				// bounds lo <= v < hi
				for _, g := range conj(t.args[1]) {
					if g.op == OLe {
						d := g.args[0]
						l := &lin{m: map[*Term]int64{}}
						toLin(d, 1, l)
						c := l.m[t.args[0]]
						if c == 1 || c == -1 {
							delete(l.m, t.args[0])
							b := fromLin(l)
							if c == 1 {
								b = Sub(Int(0), b)
							}
							if !b.bound {
								add(b)
								if wide {
									add(AddN(b, 1))
								}
							}
						}
					}
				}
			}
			for _, a := range t.args {
				if a.quant {
					rec(a)
				}
			}
		}
		rec(t)
	}
	for s, ts := range out {
		if len(ts) > 40 {
			// prefer skolems and the most recent terms
			sort.SliceStable(ts, func(i, j int) bool { return ts[i].id > ts[j].id })
			out[s] = ts[:40]
		}
	}
	return out
}
func conj(t *Term) []*Term {
	if t.op == OAnd {
		return t.args
	}
	return []*Term{t}
}

func atomic(t *Term) bool {
	switch t.op {
	case OVar, ONth, OApp, OSpec, OSel, OSelect:
		return true
	}
	return false
}

func rangeFacts(t *Term) []*Term {
	if t.sort.Kind != SInt || !atomic(t) {
		return nil
	}
	s := t.sort
	raw := func(a *Term) *Term { return intern(&Term{op: OLe, sort: BoolS, args: []*Term{a}}) }
	var out []*Term
	if s.Ranged {
		// facts only hold for genuine elements: out-of-range nth is unconstrained but harmless to constrain
		out = append(out, raw(Sub(Int(s.Lo), t)), raw(AddN(t, -s.Hi)))
	}
	if s.Ref {
		out = append(out, raw(Sub(Int(0), t)))
		if strings.HasPrefix(t.name, "#top") && t.op == OVar {
			if t.name == "#top!0" {
				out = append(out, raw(Sub(Int(1000000), t)))
			}
		} else if t.birth != nil {
			out = append(out, raw(AddN(Sub(t, t.birth), 1)))
		}
	}
	return out
}

// ---------- SMT-LIB printing ----------

type printer struct {
	b       bytes.Buffer
	names   map[*Term]string
	refs    map[*Term]int
	dialect string
	used    map[string]bool
}

func smtInt(n int64) string {
	if n < 0 {
		if n == -n {
			return "(- 9223372036854775808)"
		}
		return fmt.Sprintf("(- %d)", -n)
	}
	return fmt.Sprint(n)
}
func litSmt(s string) string {
	if s == "" {
		return "(as seq.empty (Seq Int))"
	}
	if len(s) == 1 {
		return fmt.Sprintf("(seq.unit %d)", s[0])
	}
	var b strings.Builder
	b.WriteString("(seq.++")
	for i := 0; i < len(s); i++ {
		fmt.Fprintf(&b, " (seq.unit %d)", s[i])
	}
	b.WriteString(")")
	return b.String()
}

func vname(n string) string { return "|" + n + "|" }

func (p *printer) pr(t *Term) string {
	if n, ok := p.names[t]; ok {
		return n
	}
	return p.raw(t)
}
func (p *printer) raw(t *Term) string {
	a := func(i int) string { return p.pr(t.args[i]) }
	join := func(op string) string {
		var s []string
		for _, x := range t.args {
			s = append(s, p.pr(x))
		}
		return "(" + op + " " + strings.Join(s, " ") + ")"
	}
	switch t.op {
	case OVar:
		return vname(t.name)
	case OInt:
		return smtInt(t.n)
	case OBool:
		if t == True {
			return "true"
		}
		return "false"
	case OLit:
		return litSmt(t.name)
	case OEmpty:
		return "(as seq.empty " + t.sort.Smt + ")"
	case OAdd:
		var s []string
		for i, x := range t.args {
			switch t.coefs[i] {
			case 1:
				s = append(s, p.pr(x))
			case -1:
				s = append(s, "(- "+p.pr(x)+")")
			default:
				s = append(s, "(* "+smtInt(t.coefs[i])+" "+p.pr(x)+")")
			}
		}
		if t.n != 0 {
			s = append(s, smtInt(t.n))
		}
		if len(s) == 1 {
			return s[0]
		}
		return "(+ " + strings.Join(s, " ") + ")"
	case OMul:
		return join("*")
	case ODiv:
		return join("div")
	case OMod:
		return join("mod")
	case OLe:
		// present as  pos <= neg
		d := t.args[0]
		if d.op == OAdd {
			l := &lin{m: map[*Term]int64{}}
			r := &lin{m: map[*Term]int64{}}
			for i, x := range d.args {
				if d.coefs[i] > 0 {
					l.m[x] = d.coefs[i]
				} else {
					r.m[x] = -d.coefs[i]
				}
			}
			if d.n > 0 {
				l.n = d.n
			} else {
				r.n = -d.n
			}
			return "(<= " + p.pr(fromLin(l)) + " " + p.pr(fromLin(r)) + ")"
		}
		return "(<= " + a(0) + " 0)"
	case OEq:
		return join("=")
	case ONot:
		return join("not")
	case OAnd:
		return join("and")
	case OOr:
		return join("or")
	case OIte:
		return join("ite")
	case OUnit:
		return join("seq.unit")
	case OConcat:
		return join("seq.++")
	case OLen:
		return join("seq.len")
	case ONth:
		return join("seq.nth")
	case OExtract:
		return join("seq.extract")
	case OPrefix:
		return join("seq.prefixof")
	case OSuffix:
		return join("seq.suffixof")
	case OContains:
		return join("seq.contains")
	case OIndexOf:
		return join("seq.indexof")
	case OApp, OSpec:
		if len(t.args) == 0 {
			return vname(t.name)
		}
		return join(vname(t.name))
	case OCons:
		if len(t.args) == 0 {
			return "mk_" + t.sort.DT.Name
		}
		return join("mk_" + t.sort.DT.Name)
	case OSel:
		return "(" + t.args[0].sort.DT.Name + "_" + t.args[0].sort.DT.Fields[t.n] + " " + a(0) + ")"
	case OSelect:
		return join("select")
	case OStore:
		return join("store")
	case OConstArr:
		return "((as const " + t.sort.Smt + ") " + a(0) + ")"
	case OForall:
		return "(forall ((" + vname(t.args[0].name) + " " + t.args[0].sort.Smt + ")) (=> " + a(1) + " " + a(2) + "))"
	case OFrame:
		return "|frame" + fmt.Sprint(t.id) + "|"
	}
	panic(fmt.Sprintf("print op %d", t.op))
}

func (q *query) smt() string {
	p := &printer{names: map[*Term]string{}, refs: map[*Term]int{}, used: map[string]bool{}}
	var order []*Term
	seen := map[*Term]bool{}
	all := append(append([]*Term{}, q.asserts...), q.facts...)
	for _, t := range all {
		walk(t, seen, func(x *Term) { order = append(order, x) })
	}
	for _, t := range order {
		for _, a := range t.args {
			p.refs[a]++
		}
	}
	p.b.WriteString("(set-logic ALL)\n")
	// datatypes
	usedDT := map[*Sort]bool{}
	var needSort func(s *Sort)
	var dts []*Sort
	needSort = func(s *Sort) {
		if s == nil {
			return
		}
		switch s.Kind {
		case SSeq:
			needSort(s.Elem)
		case SArray:
			needSort(s.Key)
			needSort(s.Elem)
		case SDT:
			if usedDT[s] {
				return
			}
			usedDT[s] = true
			for _, f := range s.DT.Sorts {
				needSort(f)
			}
			dts = append(dts, s)
		}
	}
	for _, t := range order {
		needSort(t.sort)
	}
	for _, t := range order {
		if t.op == OApp || t.op == OSpec {
			u := ufTab[t.name]
			for _, s := range u.Args {
				needSort(s)
			}
			needSort(u.Res)
		}
	}
	done := map[string]bool{}
	for _, s := range dts {
		if done[s.Smt] {
			continue
		}
		done[s.Smt] = true
		fmt.Fprintf(&p.b, "(declare-datatypes ((%s 0)) (((mk_%s", s.Smt, s.DT.Name)
		for i, f := range s.DT.Fields {
			fmt.Fprintf(&p.b, " (%s_%s %s)", s.DT.Name, f, s.DT.Sorts[i].Smt)
		}
		p.b.WriteString("))))\n")
	}
	declared := map[string]bool{}
	for _, t := range order {
		switch t.op {
		case OVar:
			if t.bound {
				continue
			}
			if !declared[t.name] {
				declared[t.name] = true
				fmt.Fprintf(&p.b, "(declare-fun %s () %s)\n", vname(t.name), t.sort.Smt)
			}
		case OFrame:
			n := fmt.Sprintf("frame%d", t.id)
			if !declared[n] {
				declared[n] = true
				fmt.Fprintf(&p.b, "(declare-fun %s () %s)\n", vname(n), t.sort.Smt)
			}
		case OApp, OSpec:
			if !declared[t.name] {
				declared[t.name] = true
				u := ufTab[t.name]
				var as []string
				for _, s := range u.Args {
					as = append(as, s.Smt)
				}
				fmt.Fprintf(&p.b, "(declare-fun %s (%s) %s)\n", vname(t.name), strings.Join(as, " "), u.Res.Smt)
			}
		}
	}
	for _, t := range order {
		if t.bound || len(t.args) == 0 || t.op == OFrame {
			if t.op == OLit && len(t.name) > 3 && p.refs[t] > 1 {
				n := fmt.Sprintf("t%d", t.id)
				fmt.Fprintf(&p.b, "(define-fun %s () %s %s)\n", n, t.sort.Smt, p.raw(t))
				p.names[t] = n
			}
			continue
		}
		if p.refs[t] > 1 {
			n := fmt.Sprintf("t%d", t.id)
			fmt.Fprintf(&p.b, "(define-fun %s () %s %s)\n", n, t.sort.Smt, p.raw(t))
			p.names[t] = n
		}
	}
	emitted := map[string]bool{}
	for _, t := range all {
		s := p.pr(t)
		if emitted[s] {
			continue
		}
		emitted[s] = true
		fmt.Fprintf(&p.b, "(assert %s)\n", s)
	}
	p.b.WriteString("(check-sat)\n")
	return p.b.String()
}

// ---------- running solvers ----------

type solverRes struct {
	res, backend, out string
	ms                int64
}

var tmpDir string
var solverTime = map[string]int64{}
var solverMu sync.Mutex

func runOne(ctx context.Context, name string, args []string, file string) solverRes {
	t0 := time.Now()
	c := exec.CommandContext(ctx, name, append(args, file)...)
	var ob bytes.Buffer
	c.Stdout, c.Stderr = &ob, &ob
	c.Run()
	out := ob.String()
	res := "unknown"
	first := strings.TrimSpace(strings.SplitN(out, "\n", 2)[0])
	switch first {
	case "unsat", "sat":
		res = first
	default:
		if strings.Contains(out, "(error") && !strings.Contains(out, "timeout") {
			res = "error"
		}
	}
	d := time.Since(t0).Milliseconds()
	solverMu.Lock()
	solverTime[name] += d
	solverMu.Unlock()
	return solverRes{res, name, out, d}
}

// stopAt bounds the whole run: what is not discharged by then counts as undischarged.
var stopAt syncatomic.Int64

func stopped() bool {
	s := stopAt.Load()
	return s != 0 && time.Now().UnixNano() > s
}

// stopWithin moves the end of the run to at most d from now.
func stopWithin(d time.Duration) {
	t := time.Now().Add(d).UnixNano()
	for {
		s := stopAt.Load()
		if s != 0 && s <= t || stopAt.CompareAndSwap(s, t) {
			return
		}
	}
}

func portfolio(smt string, id string, timeout time.Duration, quick bool) (ret solverRes) {
	if stopped() {
		return solverRes{res: "unknown", backend: "none (time budget used up)"}
	}
	if os.Getenv("GOVC_TIMES") != "" {
		t0 := time.Now()
		defer func() {
			fmt.Fprintf(os.Stderr, "    %s %s %s %dms\n", id, ret.res, ret.backend, time.Since(t0).Milliseconds())
		}()
	}
	// z3's sequence theory reports models that do not satisfy the query when
	// sequences of sequences are involved: there a "sat" decides nothing, and
	// the other solvers are waited for.
	nested := strings.Contains(smt, "(Seq (Seq") || strings.Contains(smt, "(Seq String")
	f := filepath.Join(tmpDir, id+".smt2")
	os.WriteFile(f, []byte(smt), 0644)
	ctx, cancel := context.WithTimeout(context.Background(), timeout+time.Second)
	defer cancel()
	if nested {
		c1, cc := context.WithTimeout(ctx, 4*time.Second)
		ch := make(chan solverRes, 2)
		go func() { ch <- runOne(c1, "cvc5", []string{"--strings-exp", "--tlimit=3500"}, f) }()
		go func() { ch <- runOne(c1, "z3-new", []string{"-t:1500"}, f) }()
		r, sat := <-ch, 0
		if r.res == "sat" {
			sat++
		}
		if r.res != "unsat" {
			r = <-ch
			if r.res == "sat" {
				sat++
			}
		}
		cc()
		if r.res == "unsat" || r.res == "sat" && sat == 2 {
			return r
		}
		if quick {
			timeout = 6 * time.Second
		}
	} else {
		first := 400 * time.Millisecond
		c1, cc := context.WithTimeout(ctx, first+500*time.Millisecond)
		r := runOne(c1, "z3-new", []string{fmt.Sprintf("-t:%d", first.Milliseconds())}, f)
		cc()
		if r.res == "unsat" || r.res == "sat" && !nested {
			return r
		}
		if r.res == "error" && !strings.Contains(r.out, "canceled") {
			return r
		}
		if quick {
			timeout = 1500 * time.Millisecond
			var c2 context.CancelFunc
			ctx, c2 = context.WithTimeout(ctx, timeout+500*time.Millisecond)
			defer c2()
		}
	}
	ms := timeout.Milliseconds()
	ch := make(chan solverRes, 3)
	go func() { ch <- runOne(ctx, "z3-new", []string{fmt.Sprintf("-t:%d", ms), "smt.random_seed=7"}, f) }()
	go func() { ch <- runOne(ctx, "z3", []string{fmt.Sprintf("-t:%d", ms)}, f) }()
	go func() {
		ch <- runOne(ctx, "cvc5", []string{"--strings-exp", fmt.Sprintf("--tlimit=%d", ms)}, f)
	}()
	var best solverRes
	best.res = "unknown"
	for i := 0; i < 3; i++ {
		r := <-ch
		if r.res == "unsat" {
			return r
		}
		if r.res == "sat" && best.res != "sat" {
			best = r
			// a ground model may be due to missing instances; accept it as final
			if !nested {
				return best
			}
		}
		if best.backend == "" || best.res == "error" {
			best = r
		}
	}
	return best
}

func model(smt, id string) string {
	f := filepath.Join(tmpDir, id+".model.smt2")
	os.WriteFile(f, []byte(smt+"(get-model)\n"), 0644)
	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
	defer cancel()
	r := runOne(ctx, "z3-new", []string{"-t:4000"}, f)
	if len(r.out) > 12000 {
		r.out = r.out[:12000]
	}
	return r.out
}
