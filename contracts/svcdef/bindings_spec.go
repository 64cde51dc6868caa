//go:build go1.18

package svcdef

import (
	"github.com/teamlint/baron/pkg"
	"github.com/teamlint/baron/svcdef/svcparse"
)

// Contracts of the attachment of HTTP rules to service methods.

// specMethodAt: the first method at or after i of that Go name, or their number.
//@ func specMethodAt(ms []*ServiceMethod, name string, i int) (r int)
//@ dec: len(ms) - i
func specMethodAt(ms []*ServiceMethod, name string, i int) int {
	if i < 0 || i >= len(ms) {
		return len(ms)
	}
	if ms[i].Name == name {
		return i
	}
	return specMethodAt(ms, name, i+1)
}

//@ func specTarget(ms []*ServiceMethod, rpc string) (r int)
//@ attr app

// specTarget: the method a parsed rpc stands for.
func specTarget(ms []*ServiceMethod, rpc string) int {
	return specMethodAt(ms, pkg.GoCamelCase(rpc), 0)
}

// specRules: the rules of method j among those of the first n rpcs and the first q of the next one.
//@ func specRules(ms []*ServiceMethod, hms []*svcparse.Method, j int, n int, q int) (r []*svcparse.HTTPBinding)
//@ dec: specRank(hms, n, q)
func specRules(ms []*ServiceMethod, hms []*svcparse.Method, j int, n int, q int) []*svcparse.HTTPBinding {
	if n < 0 || n > len(hms) {
		return nil
	}
	if q > 0 && n < len(hms) && q <= len(hms[n].HTTPBindings) {
		if specTarget(ms, hms[n].Name) == j {
			return append(specRules(ms, hms, j, n, q-1), hms[n].HTTPBindings[q-1])
		}
		return specRules(ms, hms, j, n, q-1)
	}
	if n == 0 {
		return nil
	}
	return specRules(ms, hms, j, n-1, len(hms[n-1].HTTPBindings))
}

// specRank counts the rpcs and rules so far.
//@ func specRank(hms []*svcparse.Method, n int, q int) (r int)
//@ dec: n
func specRank(hms []*svcparse.Method, n int, q int) int {
	if q < 0 {
		q = 0
	}
	if n <= 0 || n > len(hms) {
		return q
	}
	if x := specRank(hms, n-1, len(hms[n-1].HTTPBindings)); x > 0 {
		return x + 1 + q
	}
	return 1 + q
}

func specFieldsOf(m *ServiceMethod) []*Field {
	if m.RequestType.Message == nil {
		return nil
	}
	return m.RequestType.Message.Fields
}

// specParams: one parameter for each of the first n fields, in order, at its location.
func specParams(ps []*HTTPParameter, fs []*Field, rule *svcparse.HTTPBinding, n int) bool {
	return len(ps) == n && vAll(0, n, func(i int) bool {
		return ps[i] != nil && vAlloc(ps[i]) && ps[i].Field == fs[i] && ps[i].Location == specLocation(fs[i].Name, rule)
	})
}

// specHead: the verb and the path of the binding are those of the rule, and so is the parameter of field specF.
func specHead(b *HTTPBinding, rule *svcparse.HTTPBinding, fs []*Field) bool {
	return b != nil && vAlloc(b) && b.Verb == specVerb(rule) && b.Path == specPath(rule) && len(b.Params) == len(fs) &&
		specParamAt(b.Params, fs, rule, specF())
}

func specParamAt(ps []*HTTPParameter, fs []*Field, rule *svcparse.HTTPBinding, f int) bool {
	return f < 0 || f >= len(fs) || f >= len(ps) || ps[f] != nil && vAlloc(ps[f]) && ps[f].Field == fs[f] && ps[f].Location == specLocation(fs[f].Name, rule)
}

// specAttached: the binding is that of the rule.
func specAttached(b *HTTPBinding, rule *svcparse.HTTPBinding, fs []*Field) bool {
	return b != nil && vAlloc(b) && b.Verb == specVerb(rule) && b.Path == specPath(rule) && specParams(b.Params, fs, rule, len(fs))
}

func specOldBindings(svc *Service, j int) []*HTTPBinding {
	return vOld(func() []*HTTPBinding { return svc.Methods[j].Bindings })
}

// specCounts: every method has its bindings and one for each of its rules so far.
func specCounts(svc *Service, hms []*svcparse.Method, n int, q int) bool {
	return svc == nil || vAll(0, len(svc.Methods), func(j int) bool {
		return len(svc.Methods[j].Bindings) == len(specOldBindings(svc, j))+len(specRules(svc.Methods, hms, j, n, q))
	})
}

// specPresent: the bindings a method had come first.
func specPresent(svc *Service) bool {
	return svc == nil || vAll(0, len(svc.Methods), func(j int) bool {
		return len(svc.Methods[j].Bindings) >= len(specOldBindings(svc, j)) &&
			vAll(0, len(specOldBindings(svc, j)), func(i int) bool { return svc.Methods[j].Bindings[i] == specOldBindings(svc, j)[i] })
	})
}

// specJ, specI, specF: a method, a rule of it and a field of it, arbitrary but the same throughout.
//@ func specJ() (r int)
//@ attr abstract
func specJ() int { return 0 }

//@ func specI() (r int)
//@ attr abstract
func specI() int { return 0 }

//@ func specF() (r int)
//@ attr abstract
func specF() int { return 0 }

// specNew: the binding after those that belongs to rule specI is of it (for every rule, as nothing is known of specI).
func specNew(svc *Service, hms []*svcparse.Method, n int, q int) bool {
	j, i := specJ(), specI()
	return svc == nil || j < 0 || j >= len(svc.Methods) || i < 0 || i >= len(specRules(svc.Methods, hms, j, n, q)) ||
		specHead(svc.Methods[j].Bindings[len(specOldBindings(svc, j))+i], specRules(svc.Methods, hms, j, n, q)[i], specFieldsOf(svc.Methods[j]))
}

// specKnown: every one of the first n rpcs is a method of the service.
func specKnown(svc *Service, hms []*svcparse.Method, n int) bool {
	return n == 0 || svc != nil && vAll(0, n, func(i int) bool { return specTarget(svc.Methods, hms[i].Name) < len(svc.Methods) })
}

//@ func assembleHTTPParams$2(meth *ServiceMethod, parsedbind *svcparse.HTTPBinding) ()
//@ prop C09
//@ attr terminates
//@ attr helper
//@ attr hoisted createParams
//@ attr opaque specCamel,specTail,specBraced,specBare,specAmong,specBody,specVerbAt,specLastOf
//@ requires rule: specRule(parsedbind)
//@ requires method: meth != nil && meth.RequestType != nil && vAll(0, len(specFieldsOf(meth)), func(f int) bool { return specFieldsOf(meth)[f] != nil })
//@ modifies meth.Bindings
//@ let old []*HTTPBinding = meth.Bindings
//@ ensures added: vSame(meth.Bindings, append(old, meth.Bindings[len(old)]))
//@ ensures new: vFresh(meth.Bindings[len(old)])
//@ ensures head: specHead(meth.Bindings[len(old)], parsedbind, specFieldsOf(meth))
//@ ensures binding: specAttached(meth.Bindings[len(old)], parsedbind, specFieldsOf(meth))
//@ inv params(params []*HTTPParameter, fields []*Field, k int): 0 <= k && k <= len(fields) && specParams(params, fields, parsedbind, k)

//@ func assembleHTTPParams(svc *Service, httpsvc *svcparse.Service) (err error)
//@ prop C09
//@ attr terminates
//@ attr opaque specCamel,specTail,specBraced,specBare,specAmong,specBody,specVerbAt,specLastOf
//@ requires rules: httpsvc != nil && vAll(0, len(httpsvc.Methods), func(i int) bool { return httpsvc.Methods[i] != nil && vAll(0, len(httpsvc.Methods[i].HTTPBindings), func(q int) bool { return specRule(httpsvc.Methods[i].HTTPBindings[q]) }) })
//@ requires methods: svc == nil || vAll(0, len(svc.Methods), func(i int) bool { return svc.Methods[i] != nil && svc.Methods[i].RequestType != nil && vAll(0, len(specFieldsOf(svc.Methods[i])), func(f int) bool { return specFieldsOf(svc.Methods[i])[f] != nil }) })
//@ requires distinct: svc == nil || vAll(0, len(svc.Methods), func(i int) bool { return vAll(0, len(svc.Methods), func(j int) bool { return i == j || svc.Methods[i] != svc.Methods[j] }) })
//@ modifies any svcdef.ServiceMethod.Bindings
//@ ensures known: (err == nil) == specKnown(svc, httpsvc.Methods, len(httpsvc.Methods))
//@ ensures counts: err != nil || specCounts(svc, httpsvc.Methods, len(httpsvc.Methods), 0)
//@ ensures present: specPresent(svc)
//@ ensures bindings: err != nil || specNew(svc, httpsvc.Methods, len(httpsvc.Methods), 0)
//@ inv known@0(k int): 0 <= k && k <= len(httpsvc.Methods) && specKnown(svc, httpsvc.Methods, k)
//@ inv counts@0(k int): 0 <= k && k <= len(httpsvc.Methods) && specCounts(svc, httpsvc.Methods, k, 0)
//@ inv counts@1(k int, ko int): 0 <= ko && ko < len(httpsvc.Methods) && 0 <= k && k <= len(httpsvc.Methods[ko].HTTPBindings) && specCounts(svc, httpsvc.Methods, ko, k)
//@ inv present@0(): specPresent(svc)
//@ inv new@0(k int): 0 <= k && k <= len(httpsvc.Methods) && specNew(svc, httpsvc.Methods, k, 0)
//@ inv new@1(k int, ko int): 0 <= ko && ko < len(httpsvc.Methods) && 0 <= k && k <= len(httpsvc.Methods[ko].HTTPBindings) && specNew(svc, httpsvc.Methods, ko, k)
//@ inv present@1(): specPresent(svc)
//@ inv search@$1#0(name string, k int): svc != nil && 0 <= k && k <= len(svc.Methods) && specMethodAt(svc.Methods, pkg.GoCamelCase(name), k) == specMethodAt(svc.Methods, pkg.GoCamelCase(name), 0)
