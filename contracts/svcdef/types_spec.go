//go:build go1.18

package svcdef

// Contracts of the resolution of type names.

// specMessage: the last of the first n messages of that name, or nil.
//@ func specMessage(ms []*Message, name string, n int) (r *Message)
//@ dec: n
func specMessage(ms []*Message, name string, n int) *Message {
	if n <= 0 || n > len(ms) {
		return nil
	}
	if ms[n-1].Name == name {
		return ms[n-1]
	}
	return specMessage(ms, name, n-1)
}

// specEnum: the last of the first n enums of that name, or nil.
//@ func specEnum(es []*Enum, name string, n int) (r *Enum)
//@ dec: n
func specEnum(es []*Enum, name string, n int) *Enum {
	if n <= 0 || n > len(es) {
		return nil
	}
	if es[n-1].Name == name {
		return es[n-1]
	}
	return specEnum(es, name, n-1)
}

func specBoxed(m map[string]typeBox, k string) bool {
	_, ok := m[k]
	return ok
}

// specBoxes: the map gives the enum of the name, or else the message of the name, among the first so many.
func specBoxes(m map[string]typeBox, sd *Svcdef, nm int, ne int) bool {
	return m != nil && vAnyKey(m, func(k string) bool {
		return specEnumAt(m, k) == specEnum(sd.Enums, k, ne) && (specEnum(sd.Enums, k, ne) != nil || specMessageAt(m, k) == specMessage(sd.Messages, k, nm))
	})
}

// specNames: the map gives every name's definition.
func specNames(m map[string]typeBox, sd *Svcdef) bool {
	return vAnyKey(m, func(k string) bool {
		return specEnumAt(m, k) == specEnumIn(sd, k) && specMessageAt(m, k) == specMessageIn(sd, k)
	})
}

func specDefs(sd *Svcdef) bool {
	return sd != nil && vAll(0, len(sd.Messages), func(i int) bool { return sd.Messages[i] != nil }) && vAll(0, len(sd.Enums), func(i int) bool { return sd.Enums[i] != nil })
}

//@ func newTypeMap(sd *Svcdef) (r map[string]typeBox)
//@ prop C10
//@ attr terminates
//@ requires set: specDefs(sd)
//@ ensures set: r != nil
//@ ensures names: specNames(r, sd)
//@ inv messages@0(rv map[string]typeBox, k int): 0 <= k && k <= len(sd.Messages) && specBoxes(rv, sd, k, 0)
//@ inv enums@1(rv map[string]typeBox, k int): 0 <= k && k <= len(sd.Enums) && specBoxes(rv, sd, len(sd.Messages), k)

// specWhere: the type that is resolved, the value type of a map.
func specWhere(f *FieldType) *FieldType {
	if f.Map != nil {
		return f.Map.ValueType
	}
	return f
}

// specSettable: the type can be resolved.
func specSettable(f *FieldType) bool {
	return f != nil && (f.Map == nil || f.Map.ValueType != nil && f.Map.ValueType.Map == nil)
}

//@ func setType(f *FieldType, tmap map[string]typeBox) ()
//@ prop C10
//@ attr terminates
//@ requires set: specSettable(f)
//@ modifies specWhere(f).Enum, specWhere(f).Message
//@ ensures enum: specWhere(f).Enum == specOrEnum(specEnumAt(tmap, specWhere(f).Name), vOld(func() *Enum { return specWhere(f).Enum }))
//@ ensures message: specWhere(f).Message == specOrMessage(specMessageAt(tmap, specWhere(f).Name), vOld(func() *Message { return specWhere(f).Message }))

func specOrEnum(e, old *Enum) *Enum {
	if e != nil {
		return e
	}
	return old
}

func specOrMessage(e, old *Message) *Message {
	if e != nil {
		return e
	}
	return old
}

//@ func specEnumAt(m map[string]typeBox, name string) (r *Enum)
//@ attr app

// specEnumAt: the enum the map has for the name.
func specEnumAt(m map[string]typeBox, name string) *Enum {
	if specBoxed(m, name) {
		return m[name].Enum
	}
	return nil
}

//@ func specMessageAt(m map[string]typeBox, name string) (r *Message)
//@ attr app

// specMessageAt: the message the map has for the name; an enum comes first.
func specMessageAt(m map[string]typeBox, name string) *Message {
	if specBoxed(m, name) && m[name].Enum == nil {
		return m[name].Message
	}
	return nil
}

//@ func specEnumIn(sd *Svcdef, name string) (r *Enum)
//@ attr app

func specEnumIn(sd *Svcdef, name string) *Enum { return specEnum(sd.Enums, name, len(sd.Enums)) }

//@ func specMessageIn(sd *Svcdef, name string) (r *Message)
//@ attr app

// specMessageIn: the message a name refers to; an enum of that name comes first.
func specMessageIn(sd *Svcdef, name string) *Message {
	if specEnumIn(sd, name) != nil {
		return nil
	}
	return specMessage(sd.Messages, name, len(sd.Messages))
}

// specResolved: the type refers to the definition of its name, if there is one.
func specResolved(sd *Svcdef, f *FieldType) bool {
	return (specEnumIn(sd, specWhere(f).Name) == nil || specWhere(f).Enum == specEnumIn(sd, specWhere(f).Name)) &&
		(specMessageIn(sd, specWhere(f).Name) == nil || specWhere(f).Message == specMessageIn(sd, specWhere(f).Name))
}

// specNothingElse: a type refers to what it did before, or to the definition of its name; a map field itself is unchanged.
func specNothingElse(sd *Svcdef) bool {
	return vAny(func(t *FieldType) bool {
		return (t.Enum == vOld(func() *Enum { return t.Enum }) || t.Map == nil && t.Enum == specEnumIn(sd, t.Name)) &&
			(t.Message == vOld(func() *Message { return t.Message }) || t.Map == nil && t.Message == specMessageIn(sd, t.Name))
	})
}

func specFieldsSet(fs []*Field) bool {
	return vAll(0, len(fs), func(j int) bool { return fs[j] != nil && specSettable(fs[j].Type) })
}

func specFieldsDone(sd *Svcdef, fs []*Field, n int) bool {
	return vAll(0, n, func(j int) bool { return specResolved(sd, fs[j].Type) })
}

func specRequestsDone(sd *Svcdef, n int) bool {
	return vAll(0, n, func(i int) bool { return specResolved(sd, sd.Service.Methods[i].RequestType) })
}

func specResponsesDone(sd *Svcdef, n int) bool {
	return vAll(0, n, func(i int) bool { return specResolved(sd, sd.Service.Methods[i].ResponseType) })
}

func specMessagesDone(sd *Svcdef, n int) bool {
	return vAll(0, n, func(i int) bool { return specFieldsDone(sd, sd.Messages[i].Fields, len(sd.Messages[i].Fields)) })
}

//@ func resolveTypes(sd *Svcdef) ()
//@ attr opaque specEnum,specMessage,specEnumAt,specMessageAt,specEnumIn,specMessageIn
//@ prop C10
//@ attr terminates
//@ requires set: specDefs(sd) && vAll(0, len(sd.Messages), func(i int) bool { return specFieldsSet(sd.Messages[i].Fields) })
//@ requires service: sd.Service == nil || vAll(0, len(sd.Service.Methods), func(i int) bool { return sd.Service.Methods[i] != nil && specSettable(sd.Service.Methods[i].RequestType) && specSettable(sd.Service.Methods[i].ResponseType) })
//@ modifies any svcdef.FieldType.Enum, any svcdef.FieldType.Message
//@ ensures fields: specMessagesDone(sd, len(sd.Messages))
//@ ensures requests: sd.Service == nil || specRequestsDone(sd, len(sd.Service.Methods))
//@ ensures responses: sd.Service == nil || specResponsesDone(sd, len(sd.Service.Methods))
//@ ensures others: specNothingElse(sd)
//@ inv types(tmap map[string]typeBox): specNames(tmap, sd)
//@ inv others(tmap map[string]typeBox): specNothingElse(sd)
//@ inv messages@0(k int): 0 <= k && k <= len(sd.Messages) && specMessagesDone(sd, k)
//@ inv messagesI@1(ko int): 0 <= ko && ko < len(sd.Messages) && specMessagesDone(sd, ko)
//@ inv fields@1(k int, ko int): 0 <= ko && ko < len(sd.Messages) && 0 <= k && k <= len(sd.Messages[ko].Fields) && specFieldsDone(sd, sd.Messages[ko].Fields, k)
//@ inv messagesS@2(k int): specMessagesDone(sd, len(sd.Messages))
//@ inv requests@2(k int): 0 <= k && k <= len(sd.Service.Methods) && specRequestsDone(sd, k)
//@ inv responses@2(k int): 0 <= k && k <= len(sd.Service.Methods) && specResponsesDone(sd, k)
