package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"

	iotago "github.com/iotaledger/iota.go/v4"
)

// callClone calls x.Clone() by reflection.
func callClone(x any) (any, bool) {
	m := reflect.ValueOf(x).MethodByName("Clone")
	if !m.IsValid() || m.Type().NumIn() != 0 || m.Type().NumOut() != 1 {
		return nil, false
	}

	return m.Call(nil)[0].Interface(), true
}

// callEqual calls x.Equal(y) (or Equals) by reflection if y has the right type.
func callEqual(x, y any) (equal, ok bool) {
	m := reflect.ValueOf(x).MethodByName("Equal")
	if !m.IsValid() {
		m = reflect.ValueOf(x).MethodByName("Equals")
	}
	if !m.IsValid() || m.Type().NumIn() != 1 || m.Type().NumOut() != 1 || !reflect.TypeOf(y).AssignableTo(m.Type().In(0)) {
		return false, false
	}

	return m.Call([]reflect.Value{reflect.ValueOf(y)})[0].Bool(), true
}

// parts lists the parts of an object which have a reference encoding. StructValues of interfaces count by their pointer.
func parts(obj any) (out []any) {
	seen := map[string]bool{}
	visit(reflect.ValueOf(obj), func(x any) {
		if _, ok := refPart(x); !ok {
			return
		}
		// the same object is visited as a pointer and as the addressed struct
		k := fmt.Sprintf("%T:%p", x, x)
		if v := reflect.ValueOf(x); v.Kind() == reflect.Slice && v.Len() == 0 || !seen[k] {
			seen[k] = true
			out = append(out, x)
		}
	})

	return out
}

func init() {
	register("P06", func(c *Ctx) {
		c.Rule("Every part (with a Clone or Equal method) of random protocol objects is cloned; the clone's reference encoding must match; then all memory reachable from the clone is scrambled in place (slice elements, pointees, map entries, the words of big integers) and the original must be unchanged, and vice versa. Equal must agree with equality of the reference encodings for clones, for copies with one random field changed, and across unrelated objects. Read-only methods (IDs, signing messages, sizes, scores, sets, validation, codecs, strings) are called twice and the object's encoding and the results must not change; returned byte slices and sets are scrambled. Distinct keys are type and kind of comparison and changed field.")
		for _, k := range kinds {
			k := k
			if in2(k.name, "block-ids", "merkle-proof", "transaction-valid", "signed-transaction-valid", "block-valid") {
				continue
			}
			c.Run("clone/"+k.name, c.N(3000, 60000), func(t *Case) { p06Clone(t, k) })
			c.Run("equal/"+k.name, c.N(4000, 80000), func(t *Case) { p06Equal(t, k) })
		}
		c.Run("sets", c.N(2000, 60000), p06Sets)
		for _, k := range kinds {
			k := k
			if in2(k.name, "address", "output", "transaction-valid", "signed-transaction-valid", "block-valid", "commitment", "roots", "attestation", "protocol-parameters") {
				c.Run("purity/"+k.name, c.N(500, 20000), func(t *Case) { p06Purity(t, k) })
			}
		}
	})
}

func p06Clone(t *Case, k *kind) {
	w := pickWorld(t.R)
	obj := k.gen(t.R, w)
	ps := parts(obj)
	if len(ps) == 0 {
		return
	}
	// the object itself and some of its parts
	var pick []int
	for i := 0; i < 6; i++ {
		pick = append(pick, t.R.Intn(len(ps)))
	}
	pick = append(pick, 0) // at the end: the object itself is scrambled
	for n, i := range pick {
		x := ps[i]
		name := fmt.Sprintf("%T", x)
		cl, ok := callClone(x)
		if !ok {
			continue
		}
		before, _ := refPart(x)
		// the clone has the same content
		if v, ok := refPart(cl); ok {
			if d := sameBytes(v, before); !t.Check(d == "", "clone-differs:"+name, "the clone of %s differs: %s", name, d) {
				return
			}
		} else {
			t.Violate("clone-type:"+name, "the clone of a %s is a %T", name, cl)
		}
		if eq, ok := callEqual(x, cl); ok {
			t.Check(eq, "clone-not-equal:"+name, "a clone of %s is not Equal to its original", name)
		}
		// API references are carried over
		switch o := x.(type) {
		case *iotago.Transaction:
			t.Check(cl.(*iotago.Transaction).API == o.API, "clone-api:"+name, "the clone lost its API")
		case *iotago.SignedTransaction:
			c := cl.(*iotago.SignedTransaction)
			t.Check(c.API == o.API && c.Transaction.API == o.Transaction.API, "clone-api:"+name, "the clone lost its API")
		}
		cl2, _ := callClone(x)
		// changing the clone does not change the original
		scramble(reflect.ValueOf(cl))
		after, _ := refPart(x)
		if d := sameBytes(after, before); !t.Check(d == "", "clone-shares-memory:"+name, "writing to a clone of %s changed the original: %s", name, d) {
			return
		}
		t.Eval("clone:" + name + ":" + shape(before))
		t.Count("cloned " + name)
		if i == 0 && n == len(pick)-1 && x == obj { // changing the original does not change a clone
			scramble(reflect.ValueOf(x))
			after, _ = refPart(cl2)
			d := sameBytes(after, before)
			t.Check(d == "", "clone-shares-memory:"+name, "writing to %s changed its clone: %s", name, d)

			return
		}
	}
	t.Sample(map[string]any{"kind": k.name, "parts": len(ps)})
}

func p06Equal(t *Case, k *kind) {
	w := pickWorld(t.R)
	obj := k.gen(t.R, w)
	ps := parts(obj)
	other := parts(k.gen(t.R, w))
	for n := 0; n < 6 && len(ps) > 0; n++ {
		x := ps[t.R.Intn(len(ps))]
		name := fmt.Sprintf("%T", x)
		xb, _ := refPart(x)
		// against unrelated objects and other parts of the same object
		for m := 0; m < 4; m++ {
			pool := ps
			if m >= 2 && len(other) > 0 {
				pool = other
			}
			y := pool[t.R.Intn(len(pool))]
			eq, ok := callEqual(x, y)
			if !ok {
				continue
			}
			yb, _ := refPart(y)
			same := bytes.Equal(xb, yb)
			t.Check(eq == same, "equal-wrong:"+name, "Equal of %s and %T is %v, their encodings:\n%x\n%x", name, y, eq, xb, yb)
			t.Eval("pair:" + name + fmt.Sprintf(":%T:%v", y, eq))
		}
		cl, ok := callClone(x)
		if !ok {
			continue
		}
		if _, ok := callEqual(x, cl); !ok {
			continue
		}
		// one field changed
		field, changed := perturb(t.R, reflect.ValueOf(cl))
		if !changed {
			continue
		}
		cb, _ := refPart(cl)
		same := bytes.Equal(xb, cb)
		for dir, p := range [][2]any{{x, cl}, {cl, x}} {
			eq, _ := callEqual(p[0], p[1])
			t.Check(eq == same, "equal-ignores:"+name+field, "Equal (direction %d) of %s with changed %s is %v, encodings:\n%x\n%x", dir, name, field, eq, xb, cb)
		}
		t.Eval("field:" + name + field)
	}
	// commitments have a comparison of their own
	if a, is := obj.(*iotago.Commitment); is {
		b := *a
		t.Check(a.Equals(&b), "equal-wrong:commitment", "a copied commitment is not equal")
		field, _ := perturb(t.R, reflect.ValueOf(&b))
		t.Check(!a.Equals(&b), "equal-ignores:commitment"+field, "commitments which differ in %s are equal", field)
		t.Eval("field:commitment" + field)
	}
	if a, is := obj.(*iotago.Transaction); is {
		for _, in := range a.TransactionEssence.Inputs {
			u := in.(*iotago.UTXOInput)
			v := *u
			t.Check(u.Equals(&v), "equal-wrong:utxo-input", "a copied input is not equal")
			field, _ := perturb(t.R, reflect.ValueOf(&v))
			t.Check(!u.Equals(&v), "equal-ignores:utxo-input"+field, "inputs which differ in %s are equal", field)
		}
	}
}

func p06Sets(t *Case) {
	o := genOutput(t.R)
	before := refOutput(o)
	feats, imm := refFeatList(o)
	ucs := refUCList(o)
	fs, us := o.FeatureSet(), o.UnlockConditionSet()
	t.Check(len(us) == len(ucs), "uc-set", "unlock condition set has %d of %d elements", len(us), len(ucs))
	for _, u := range ucs {
		t.Check(us[u.Type()] == u, "uc-set", "unlock condition %s is not in the set", u.Type())
	}
	t.Check(len(fs) == len(feats), "feature-set", "feature set has %d of %d elements", len(fs), len(feats))
	for _, f := range feats {
		t.Check(fs[f.Type()] == f, "feature-set", "feature %s is not in the set", f.Type())
	}
	if co, is := o.(iotago.ChainOutputImmutable); is {
		is := co.ImmutableFeatureSet()
		t.Check(len(is) == len(imm), "imm-feature-set", "immutable feature set has %d of %d elements", len(is), len(imm))
	}
	cl := fs.Clone()
	t.Check(len(cl) == len(fs), "feature-set-clone", "clone has %d of %d elements", len(cl), len(fs))
	for k, f := range cl {
		t.Check(bytes.Equal(refFeature(f), refFeature(fs[k])), "feature-set-clone", "cloned feature differs")
		scramble(reflect.ValueOf(f))
	}
	for k := range fs {
		delete(fs, k)
	}
	for k := range us {
		delete(us, k)
	}
	d := sameBytes(refOutput(o), before)
	t.Check(d == "", "set-shares-memory", "changing the sets changed the output: %s", d)
	id := genOutputID(t.R)
	set := iotago.OutputSet{id: o}
	sc := set.Clone()
	t.Check(len(sc) == 1 && bytes.Equal(refOutput(sc[id]), before), "output-set-clone", "cloned output set differs")
	scramble(reflect.ValueOf(sc[id]))
	d = sameBytes(refOutput(o), before)
	t.Check(d == "", "set-shares-memory", "changing a cloned output set changed the output: %s", d)
	t.Eval("sets:" + shape(before))
}

// p06Purity calls read-only methods twice.
func p06Purity(t *Case, k *kind) {
	w := pickWorld(t.R)
	obj := k.gen(t.R, w)
	before := refKind(k, obj)
	t.Note("world %s, encoding %x", w.Name, before)
	r1 := readAll(t, w, k, obj, true)
	d := sameBytes(refKind(k, obj), before)
	if !t.Check(d == "", "read-changes-object:"+k.name, "read-only methods changed the object: %s", d) {
		return
	}
	r2 := readAll(t, w, k, obj, true)
	d = sameBytes(refKind(k, obj), before)
	t.Check(d == "", "read-changes-object:"+k.name, "read-only methods changed the object: %s", d)
	for i := range r1 {
		if i < len(r2) && r1[i] != r2[i] {
			t.Violate("read-unstable:"+k.name, "calling a read-only method twice gives different results:\n%s\n%s", r1[i], r2[i])

			return
		}
	}
	t.Check(len(r1) == len(r2), "read-unstable:"+k.name, "different number of results")
	t.Eval("purity:" + k.name + ":" + shape(before))
	t.Add("read-only calls", int64(len(r1)+len(r2)))
}

// readAll calls the read-only methods of every part of the object by reflection and returns a description of the results.
func readAll(t *Case, w *World, k *kind, obj any, scrambleResults bool) (out []string) {
	note := func(name string, v any) { out = append(out, fmt.Sprintf("%s: %v", name, v)) }
	enc, err := encodeKind(k, w, obj)
	note("Encode", fmt.Sprintf("%x %v", enc, err))
	if k.decJ != nil {
		j, err := jsonEncodeKind(k, w, obj)
		var doc any
		_ = json.Unmarshal(j, &doc)
		canon, _ := json.Marshal(doc) // the order of object members carries no information
		note("JSONEncode", fmt.Sprintf("%x %v", blake(canon), err != nil))
	}
	names := []string{"ID", "MustID", "Size", "Bytes", "Key", "String", "SigningMessage", "TransactionCommitment", "Slot", "SlotCommitmentID", "FeatureSet", "UnlockConditionSet", "ImmutableFeatureSet", "ChainID", "Hash", "BodyHash", "BlockID", "VerifySignature", "Inputs", "CommitmentInput", "BICInputs", "RewardInputs", "OutputsSet", "ForEachParent", "Parents", "ParentsWithType", "Allotments", "BaseTokenAmount", "StoredMana", "Owner", "WorkScore", "AttestationsProof", "NetworkID", "OutputID", "AccountID", "FoundryID", "FoundryAddress", "SyntacticallyValidate"}
	visit(reflect.ValueOf(obj), func(x any) {
		v := reflect.ValueOf(x)
		for _, n := range names {
			m := v.MethodByName(n)
			if !m.IsValid() {
				continue
			}
			var args []reflect.Value
			switch m.Type().NumIn() {
			case 0:
			case 1:
				switch m.Type().In(0) {
				case reflect.TypeOf(&iotago.WorkScoreParameters{}):
					args = []reflect.Value{reflect.ValueOf(w.PP.WorkScoreParameters())}
				case apiType:
					args = []reflect.Value{reflect.ValueOf(w.API)}
				default:
					continue
				}
			default:
				continue
			}
			if _, is := x.(*iotago.MultiAddressReference); is {
				continue
			}
			desc := ""
			res := m.Call(args)
			if n == "String" { // human readable texts are not specified (they print maps)
				continue
			}
			for _, r := range res {
				if r.Kind() == reflect.Interface && r.IsNil() {
					desc += " <nil>"

					continue
				}
				switch val := r.Interface().(type) {
				case error:
					desc += " error"
				case []byte:
					desc += fmt.Sprintf(" %x", val)
				case fmt.Stringer:
					if r.Kind() != reflect.Pointer && r.Kind() != reflect.Map && r.Kind() != reflect.Slice {
						desc += fmt.Sprintf(" %v", val)
					}
				default:
					switch r.Kind() {
					case reflect.Pointer, reflect.Func:
					case reflect.Map, reflect.Slice:
						desc += fmt.Sprintf(" len %d", r.Len())
					case reflect.Struct:
					default:
						desc += fmt.Sprintf(" %v", val)
					}
				}
				if scrambleResults && r.Kind() == reflect.Slice && r.Type().Elem().Kind() == reflect.Uint8 && n != "Key" {
					scramble(r)
				}
				if scrambleResults && r.Kind() == reflect.Map {
					for _, key := range r.MapKeys() {
						r.SetMapIndex(key, reflect.Value{})
					}
				}
				if scrambleResults && r.Kind() == reflect.Slice && r.Type().Elem().Kind() != reflect.Uint8 {
					for i := 0; i < r.Len(); i++ { // drop the elements of returned lists (not what they point to)
						r.Index(i).Set(reflect.Zero(r.Type().Elem()))
					}
				}
			}
			out = append(out, fmt.Sprintf("%T.%s:%s", x, n, desc))
		}
	})

	return out
}
