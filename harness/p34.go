package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"math/big"
	"math/rand"
	"reflect"
	"sort"
	"time"

	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/vm"
)

// P34: collections of protocol objects against plain models of lists and maps.

func genFeature(r *rand.Rand) iotago.Feature {
	switch r.Intn(8) {
	case 0:
		return &iotago.SenderFeature{Address: genAddr(r)}
	case 1:
		return &iotago.IssuerFeature{Address: genAddr(r)}
	case 2:
		return genMetadata(r)
	case 3:
		return genStateMetadata(r)
	case 4:
		return genTag(r)
	case 5:
		return &iotago.NativeTokenFeature{ID: genFoundryID(r), Amount: rbig(r)}
	case 6:
		return genBlockIssuer(r)
	default:
		return genStaking(r)
	}
}

// smallSlot gives slots which are often equal or next to each other.
func smallSlot(r *rand.Rand) iotago.SlotIndex {
	if coin(r, 4) {
		return iotago.SlotIndex(ru32(r))
	}

	return iotago.SlotIndex(100 + r.Intn(4))
}

func genUC(r *rand.Rand) iotago.UnlockCondition {
	switch r.Intn(7) {
	case 0:
		return &iotago.AddressUnlockCondition{Address: genAnyAddr(r)}
	case 1:
		return genSDR(r)
	case 2:
		return &iotago.TimelockUnlockCondition{Slot: smallSlot(r)}
	case 3:
		return &iotago.ExpirationUnlockCondition{ReturnAddress: genAddr(r), Slot: smallSlot(r)}
	case 4:
		return &iotago.StateControllerAddressUnlockCondition{Address: genAddr(r)}
	case 5:
		return &iotago.GovernorAddressUnlockCondition{Address: genAddr(r)}
	default:
		var a iotago.AccountAddress = r32(r)

		return &iotago.ImmutableAccountUnlockCondition{Address: &a}
	}
}

// typedElem repeats gen until the element may be held by a list of T.
func typedElem[T any, A any](r *rand.Rand, gen func(*rand.Rand) A) (T, bool) {
	for i := 0; i < 400; i++ {
		if x, is := any(gen(r)).(T); is {
			return x, true
		}
	}
	var none T

	return none, false
}

// collection is what lists of features and of unlock conditions have in common.
type collection[T any, K comparable, S any] struct {
	name      string
	typeOf    func(T) K
	enc       func(T) []byte
	upsert    func(T)
	remove    func(K) bool
	sortIt    func()
	get       func() []T
	set       func() (map[K]any, error)
	mustSet   func() map[K]any
	cloneEq   func() (equal bool, elems []T) // the clone and whether it equals the list
	equal     func(others []T) bool          // Equal with a list of these elements
	errNotUni error
	allTypes  []K
	raw       func(T) // appends without looking for the type
}

func runCollection[T any, K comparable, S any](t *Case, c collection[T, K, S], gen func(*rand.Rand) (T, bool), less func(a, b K) bool) {
	r := t.R
	var model []T
	history := ""
	var elems []T
	same := func(where string) bool {
		got := c.get()
		if !t.Check(len(got) == len(model), c.name+":length", "%s: after %s the list has %d elements, expected %d", where, history, len(got), len(model)) {
			return false
		}
		for i := range got {
			if !t.Check(any(got[i]) == any(model[i]), c.name+":element", "%s: after %s element %d is %T %x, expected %T %x", where, history, i, got[i], c.enc(got[i]), model[i], c.enc(model[i])) {
				return false
			}
		}

		return true
	}
	n := 1 + r.Intn(24)
	unique := true
	for step := 0; step < n; step++ {
		op := r.Intn(20)
		if !unique && op < 13 { // what becomes of two elements of a type is open
			op = 13
		}
		switch {
		case op < 8:
			x, ok := gen(r)
			if !ok {
				return
			}
			history += fmt.Sprintf(" upsert(%v)", c.typeOf(x))
			found := false
			for i := range model {
				if c.typeOf(model[i]) == c.typeOf(x) {
					model[i], found = x, true

					break
				}
			}
			if !found {
				model = append(model, x)
			}
			c.upsert(x)
			elems = append(elems, x)
			t.Eval(join(c.name, "upsert", fmt.Sprint(found, len(model))))
		case op < 13:
			k := c.allTypes[r.Intn(len(c.allTypes))]
			if len(model) > 0 && !coin(r, 4) {
				k = c.typeOf(model[r.Intn(len(model))])
			}
			history += fmt.Sprintf(" remove(%v)", k)
			want := false
			for i := range model {
				if c.typeOf(model[i]) == k {
					model = append(append([]T{}, model[:i]...), model[i+1:]...)
					want = true

					break
				}
			}
			got := c.remove(k)
			t.Check(got == want, c.name+":remove", "after %s Remove answers %v, expected %v", history, got, want)
			t.Eval(join(c.name, "remove", fmt.Sprint(want, len(model))))
		case op < 16:
			history += " sort"
			c.sortIt()
			got := c.get()
			for i := 1; i < len(got); i++ {
				t.Check(!less(c.typeOf(got[i]), c.typeOf(got[i-1])), c.name+":order", "after %s elements %d and %d are out of order", history, i-1, i)
			}
			// the same elements: with distinct types the order is determined
			sort.SliceStable(model, func(i, j int) bool { return less(c.typeOf(model[i]), c.typeOf(model[j])) })
			if !unique { // the order among equal types is open
				if !t.Check(sameMultiset(got, model, c.enc), c.name+":sort-elements", "after %s sorting changed the elements", history) {
					return
				}
				model = append([]T{}, got...)
			}
			t.Eval(join(c.name, "sort", fmt.Sprint(len(model))))
		case op == 16: // an element whose type may be there already
			x, ok := gen(r)
			if !ok {
				return
			}
			history += fmt.Sprintf(" append(%v)", c.typeOf(x))
			c.raw(x)
			model = append(model, x)
		default:
			eq, clones := c.cloneEq()
			t.Check(eq, c.name+":clone-equal", "after %s the clone does not equal the list", history)
			if t.Check(len(clones) == len(model), c.name+":clone", "after %s the clone has %d of %d elements", history, len(clones), len(model)) {
				for i := range clones {
					t.Check(bytes.Equal(c.enc(clones[i]), c.enc(model[i])), c.name+":clone", "after %s element %d of the clone differs", history, i)
				}
			}
			// equality against a variant of the list
			var v []T
			for _, x := range clones {
				v = append(v, x)
			}
			switch r.Intn(5) {
			case 0:
				if len(v) > 0 {
					v = v[:len(v)-1]
				}
			case 1:
				if x, ok := gen(r); ok {
					v = append(v, x)
				}
			case 2:
				if len(v) > 0 {
					if x, ok := gen(r); ok {
						v[r.Intn(len(v))] = x
					}
				}
			case 3:
				if len(v) > 1 {
					i, j := r.Intn(len(v)), r.Intn(len(v))
					v[i], v[j] = v[j], v[i]
				}
			case 4:
				if len(v) > 0 {
					perturb(r, reflect.ValueOf(v[r.Intn(len(v))]))
				}
			}
			want := len(v) == len(model)
			for i := 0; want && i < len(v); i++ {
				want = bytes.Equal(c.enc(v[i]), c.enc(model[i]))
			}
			got := c.equal(v)
			t.Check(got == want, c.name+":equal", "after %s Equal with a variant is %v, expected %v", history, got, want)
			t.Eval(join(c.name, "equal", fmt.Sprint(want, len(model), len(v))))
		}
		if !same(fmt.Sprintf("step %d", step)) {
			return
		}
		unique = true
		seen := map[K]bool{}
		for _, x := range model {
			unique = unique && !seen[c.typeOf(x)]
			seen[c.typeOf(x)] = true
		}
		set, err := c.set()
		var must map[K]any
		panicked := guard0(func() { must = c.mustSet() })
		if unique {
			t.Check(err == nil && !panicked, c.name+":set", "after %s no set: %v", history, err)
			t.Check(len(set) == len(model) && len(must) == len(model), c.name+":set", "after %s the set has %d of %d elements", history, len(set), len(model))
			for _, x := range model {
				t.Check(set[c.typeOf(x)] == any(x) && must[c.typeOf(x)] == any(x), c.name+":set", "after %s the set has not the element of type %v", history, c.typeOf(x))
			}
		} else {
			t.Count(c.name + " with equal types")
			t.Check(errors.Is(err, c.errNotUni) && panicked, c.name+":set-duplicates", "after %s with two elements of a type: %v, panic %v", history, err, panicked)
		}
	}
	t.Sample(map[string]any{"collection": c.name, "history": history})
}

func guard0(f func()) (panicked bool) {
	defer func() {
		if recover() != nil {
			panicked = true
		}
	}()
	f()

	return false
}

func sameMultiset[T any](a, b []T, enc func(T) []byte) bool {
	if len(a) != len(b) {
		return false
	}
	m := map[string]int{}
	for _, x := range a {
		m[string(enc(x))]++
	}
	for _, x := range b {
		m[string(enc(x))]--
	}
	for _, n := range m {
		if n != 0 {
			return false
		}
	}

	return true
}

func p34Features[T iotago.Feature](name string) func(t *Case) {
	return func(t *Case) {
		var l iotago.Features[T]
		if coin(t.R, 2) {
			l = make(iotago.Features[T], 0, t.R.Intn(10))
		}
		set := func(s iotago.FeatureSet) map[iotago.FeatureType]any {
			m := map[iotago.FeatureType]any{}
			for k, v := range s {
				m[k] = v
			}

			return m
		}
		c := collection[T, iotago.FeatureType, iotago.FeatureSet]{
			name: name, typeOf: func(x T) iotago.FeatureType { return x.Type() }, enc: func(x T) []byte { return refFeature(x) },
			upsert: func(x T) { l.Upsert(x) }, remove: func(k iotago.FeatureType) bool { return l.Remove(k) }, sortIt: func() { l.Sort() },
			get:     func() []T { return l },
			set:     func() (map[iotago.FeatureType]any, error) { s, err := l.Set(); return set(s), err },
			mustSet: func() map[iotago.FeatureType]any { return set(l.MustSet()) },
			cloneEq: func() (bool, []T) { cl := l.Clone(); return l.Equal(cl) && cl.Equal(l), cl },
			equal: func(o []T) bool {
				a, b := l.Equal(o), iotago.Features[T](o).Equal(l)
				t.Check(a == b, name+":equal-symmetric", "Equal is %v in one direction and %v in the other", a, b)

				return a
			},
			errNotUni: iotago.ErrNonUniqueFeatures, raw: func(x T) { l = append(l, x) },
			allTypes: []iotago.FeatureType{iotago.FeatureSender, iotago.FeatureIssuer, iotago.FeatureMetadata, iotago.FeatureStateMetadata, iotago.FeatureTag, iotago.FeatureNativeToken, iotago.FeatureBlockIssuer, iotago.FeatureStaking},
		}
		runCollection(t, c, func(r *rand.Rand) (T, bool) { return typedElem[T](r, genFeature) }, func(a, b iotago.FeatureType) bool { return a < b })
	}
}

func p34UCs[T iotago.UnlockCondition](name string) func(t *Case) {
	return func(t *Case) {
		var l iotago.UnlockConditions[T]
		if coin(t.R, 2) {
			l = make(iotago.UnlockConditions[T], 0, t.R.Intn(10))
		}
		set := func(s iotago.UnlockConditionSet) map[iotago.UnlockConditionType]any {
			m := map[iotago.UnlockConditionType]any{}
			for k, v := range s {
				m[k] = v
			}

			return m
		}
		c := collection[T, iotago.UnlockConditionType, iotago.UnlockConditionSet]{
			name: name, typeOf: func(x T) iotago.UnlockConditionType { return x.Type() }, enc: func(x T) []byte { return refUC(x) },
			upsert: func(x T) { l.Upsert(x) }, remove: func(k iotago.UnlockConditionType) bool { return l.Remove(k) }, sortIt: func() { l.Sort() },
			get:     func() []T { return l },
			set:     func() (map[iotago.UnlockConditionType]any, error) { s, err := l.Set(); return set(s), err },
			mustSet: func() map[iotago.UnlockConditionType]any { return set(l.MustSet()) },
			cloneEq: func() (bool, []T) { cl := l.Clone(); return l.Equal(cl) && cl.Equal(l), cl },
			equal: func(o []T) bool {
				a, b := l.Equal(o), iotago.UnlockConditions[T](o).Equal(l)
				t.Check(a == b, name+":equal-symmetric", "Equal is %v in one direction and %v in the other", a, b)

				return a
			},
			errNotUni: iotago.ErrNonUniqueUnlockConditions, raw: func(x T) { l = append(l, x) },
			allTypes: []iotago.UnlockConditionType{iotago.UnlockConditionAddress, iotago.UnlockConditionStorageDepositReturn, iotago.UnlockConditionTimelock, iotago.UnlockConditionExpiration, iotago.UnlockConditionStateControllerAddress, iotago.UnlockConditionGovernorAddress, iotago.UnlockConditionImmutableAccount},
		}
		runCollection(t, c, func(r *rand.Rand) (T, bool) { return typedElem[T](r, genUC) }, func(a, b iotago.UnlockConditionType) bool { return a < b })
	}
}

// p34FeatureSets: lookups by type, comparisons of two sets.
func p34FeatureSets(t *Case) {
	r := t.R
	mk := func(n int) iotago.FeatureSet {
		s := iotago.FeatureSet{}
		for i := 0; i < n; i++ {
			f := genFeature(r)
			s[f.Type()] = f
		}

		return s
	}
	a, b := mk(r.Intn(7)), mk(r.Intn(7))
	for k, f := range a { // many types in common, some unchanged
		if coin(r, 3) {
			b[k] = f.Clone()
		}
	}
	isNil := func(x any) bool { return reflect.ValueOf(x).IsNil() }
	for _, g := range []struct {
		k   iotago.FeatureType
		get any
	}{
		{iotago.FeatureSender, a.SenderFeature()}, {iotago.FeatureIssuer, a.Issuer()}, {iotago.FeatureMetadata, a.Metadata()}, {iotago.FeatureStateMetadata, a.StateMetadata()},
		{iotago.FeatureTag, a.Tag()}, {iotago.FeatureNativeToken, a.NativeToken()}, {iotago.FeatureBlockIssuer, a.BlockIssuer()}, {iotago.FeatureStaking, a.Staking()},
	} {
		f, has := a[g.k]
		t.Check(has != isNil(g.get) && (!has || any(f) == g.get), "feature-set:lookup", "lookup of %s gives %v, the set has %v", g.k, g.get, f)
		t.Eval(join("lookup", g.k.String(), fmt.Sprint(has)))
	}
	_, hasToken := a[iotago.FeatureNativeToken]
	t.Check(a.HasNativeTokenFeature() == hasToken, "feature-set:lookup", "HasNativeTokenFeature is %v", !hasToken)
	// every pair of elements which both sets have
	wantAll := true
	want := map[iotago.FeatureType]int{}
	for k := range a {
		if _, has := b[k]; has {
			want[k]++
		} else {
			wantAll = false
		}
	}
	var wantErr error
	failAt := iotago.FeatureType(255)
	if len(want) > 0 && coin(r, 3) {
		for k := range want {
			failAt, wantErr = k, errors.New("stop")
		}
	}
	all, err := a.EveryTuple(b, func(x, y iotago.Feature) error {
		want[x.Type()]--
		t.Check(any(a[x.Type()]) == any(x) && any(b[x.Type()]) == any(y), "feature-set:tuple", "EveryTuple passes elements which are not of the sets")
		if x.Type() == failAt {
			return wantErr
		}

		return nil
	})
	if wantErr != nil {
		t.Check(errors.Is(err, wantErr), "feature-set:tuple-error", "EveryTuple gives %v although the function failed", err)
	} else {
		t.Check(err == nil && all == wantAll, "feature-set:tuple-all", "EveryTuple gives %v, %v, expected %v", all, err, wantAll)
		for k, n := range want {
			t.Check(n == 0, "feature-set:tuple-count", "EveryTuple called the function %d times too few for %s", n, k)
		}
	}
	for k := iotago.FeatureSender; k <= iotago.FeatureStaking; k++ {
		x, hasX := a[k]
		y, hasY := b[k]
		unchanged := hasX == hasY && (!hasX || bytes.Equal(refFeature(x), refFeature(y)))
		err := iotago.FeatureUnchanged(k, a, b)
		t.Check((err == nil) == unchanged && (err == nil || errors.Is(err, iotago.ErrInvalidFeatureTransition)), "feature-set:unchanged", "FeatureUnchanged(%s) is %v, the features are %v and %v", k, err, x, y)
		t.Eval(join("unchanged", k.String(), fmt.Sprint(hasX, hasY, unchanged)))
	}
}

// p34UCSets: what a set of unlock conditions says about slots and owners.
func p34UCSets(t *Case) {
	r := t.R
	s := iotago.UnlockConditionSet{}
	for i := r.Intn(6); i > 0; i-- {
		u := genUC(r)
		s[u.Type()] = u
	}
	var acc iotago.AccountID = r32(r)
	if coin(r, 2) {
		var a iotago.Address = acc.ToAddress()
		switch r.Intn(6) {
		case 0:
			nft := iotago.NFTAddress(acc)
			a = &nft
		case 1:
			x := acc
			x[r.Intn(32)] ^= 1
			a = x.ToAddress()
		}
		s[iotago.UnlockConditionAddress] = &iotago.AddressUnlockCondition{Address: a}
	}
	isNil := func(x any) bool { return reflect.ValueOf(x).IsNil() }
	for _, g := range []struct {
		k   iotago.UnlockConditionType
		get any
	}{
		{iotago.UnlockConditionAddress, s.Address()}, {iotago.UnlockConditionStorageDepositReturn, s.StorageDepositReturn()}, {iotago.UnlockConditionTimelock, s.Timelock()}, {iotago.UnlockConditionExpiration, s.Expiration()},
		{iotago.UnlockConditionStateControllerAddress, s.StateControllerAddress()}, {iotago.UnlockConditionGovernorAddress, s.GovernorAddress()}, {iotago.UnlockConditionImmutableAccount, s.ImmutableAccount()},
	} {
		u, has := s[g.k]
		t.Check(has != isNil(g.get) && (!has || any(u) == g.get), "uc-set:lookup", "lookup of %s gives %v, the set has %v", g.k, g.get, u)
		t.Eval(join("uc-lookup", g.k.String(), fmt.Sprint(has)))
	}
	exp, hasExp := s[iotago.UnlockConditionExpiration].(*iotago.ExpirationUnlockCondition)
	tl, hasTL := s[iotago.UnlockConditionTimelock].(*iotago.TimelockUnlockCondition)
	_, hasSDR := s[iotago.UnlockConditionStorageDepositReturn]
	t.Check(s.HasStorageDepositReturnCondition() == hasSDR && s.HasExpirationCondition() == hasExp && s.HasTimelockCondition() == hasTL, "uc-set:has", "has-questions answered wrongly for %d conditions", len(s))
	for i := 0; i < 6; i++ {
		past, future := smallSlot(r), smallSlot(r)
		if hasExp && coin(r, 2) {
			past, future = exp.Slot+iotago.SlotIndex(r.Intn(3))-1, exp.Slot+iotago.SlotIndex(r.Intn(3))-1
		}
		if hasTL && coin(r, 3) {
			future = tl.Slot + iotago.SlotIndex(r.Intn(3)) - 1
		}
		ctx := fmt.Sprintf("past %d, future %d, expiration %v, timelock %v", past, future, exp, tl)
		owner := !hasExp || past < exp.Slot
		ret := hasExp && future >= exp.Slot
		t.Check(s.OwnerAddressCanUnlock(past) == owner, "uc-set:owner", "OwnerAddressCanUnlock: %s", ctx)
		ok, a := s.ReturnAddressCanUnlock(future)
		t.Check(ok == ret && (!ok || any(a) == any(exp.ReturnAddress)), "uc-set:return", "ReturnAddressCanUnlock gives %v %v: %s", ok, a, ctx)
		a, err := s.CheckExpirationCondition(future, past)
		switch {
		case ret:
			t.Check(err == nil && any(a) == any(exp.ReturnAddress), "uc-set:expiration", "CheckExpirationCondition gives %v %v: %s", a, err, ctx)
		case owner:
			t.Check(err == nil && a == nil, "uc-set:expiration", "CheckExpirationCondition gives %v %v: %s", a, err, ctx)
		default:
			t.Check(errors.Is(err, iotago.ErrExpirationNotUnlockable), "uc-set:expiration", "CheckExpirationCondition gives %v %v: %s", a, err, ctx)
		}
		locked := hasTL && future < tl.Slot
		err = s.TimelocksExpired(future)
		t.Check((err != nil) == locked && (err == nil || errors.Is(err, iotago.ErrTimelockNotExpired)), "uc-set:timelock", "TimelocksExpired gives %v: %s", err, ctx)
		t.Check(s.HasTimelockUntil(future) == locked, "uc-set:timelock-until", "HasTimelockUntil: %s", ctx)
		au, hasA := s[iotago.UnlockConditionAddress].(*iotago.AddressUnlockCondition)
		mine := hasA && akey(au.Address) == akey(acc.ToAddress())
		t.Check(s.HasManalockCondition(acc, future) == (locked && mine), "uc-set:manalock", "HasManalockCondition of account %x with address %v: %s", acc, au, ctx)
		t.Eval(join("uc-slots", fmt.Sprint(hasExp, hasTL, owner, ret, locked, mine)))
	}
}

// p34Keys: lists of block issuer keys.
func p34Keys(t *Case) {
	r := t.R
	pool := make([]iotago.BlockIssuerKey, 1+r.Intn(8))
	for i := range pool {
		k := &iotago.Ed25519PublicKeyHashBlockIssuerKey{PublicKeyHash: r32(r)}
		if i > 0 && coin(r, 3) { // differs in the last bytes only
			k.PublicKeyHash = pool[0].(*iotago.Ed25519PublicKeyHashBlockIssuerKey).PublicKeyHash
			k.PublicKeyHash[31-r.Intn(2)] ^= 1 << uint(r.Intn(8))
		}
		pool[i] = k
	}
	pick := func() iotago.BlockIssuerKey { return pool[r.Intn(len(pool))].Clone() }
	var start []iotago.BlockIssuerKey
	given := map[string]bool{}
	for i := r.Intn(4); i > 0; i-- {
		if k := pick(); !given[string(refBIKey(k))] {
			given[string(refBIKey(k))] = true
			start = append(start, k)
		}
	}
	before := append([]iotago.BlockIssuerKey{}, start...)
	l := iotago.NewBlockIssuerKeys(start...)
	for i := range start {
		t.Check(start[i] == before[i], "issuer-keys:new", "NewBlockIssuerKeys changed its arguments")
	}
	var model [][]byte
	for _, k := range start {
		model = append(model, refBIKey(k))
	}
	order := func() { sort.Slice(model, func(i, j int) bool { return bytes.Compare(model[i], model[j]) < 0 }) }
	order()
	history := fmt.Sprintf("new(%d)", len(start))
	for step := 0; step < 1+r.Intn(16); step++ {
		k := pick()
		kb := refBIKey(k)
		at := -1
		for i, m := range model {
			if at < 0 && bytes.Equal(m, kb) {
				at = i
			}
		}
		old := l.Clone()
		oldEnc := make([][]byte, len(old))
		for i := range old {
			oldEnc[i] = refBIKey(old[i])
		}
		switch r.Intn(4) {
		case 0, 1:
			history += " add"
			l.Add(k)
			if at < 0 {
				model = append(model, kb)
				order()
			}
			t.Eval(join("keys", "add", fmt.Sprint(at < 0, len(model))))
		case 2:
			history += " remove"
			l.Remove(k)
			if at >= 0 {
				model = append(append([][]byte{}, model[:at]...), model[at+1:]...)
			}
			t.Eval(join("keys", "remove", fmt.Sprint(at < 0, len(model))))
		case 3:
			t.Check(l.Has(k) == (at >= 0), "issuer-keys:has", "after %s Has is %v", history, at < 0)
			t.Eval(join("keys", "has", fmt.Sprint(at < 0)))
		}
		if !t.Check(len(l) == len(model), "issuer-keys:length", "after %s there are %d keys, expected %d", history, len(l), len(model)) {
			return
		}
		for i := range l {
			t.Check(bytes.Equal(refBIKey(l[i]), model[i]), "issuer-keys:element", "after %s key %d is %x, expected %x", history, i, refBIKey(l[i]), model[i])
		}
		for i := range old {
			t.Check(bytes.Equal(refBIKey(old[i]), oldEnc[i]), "issuer-keys:clone", "after %s key %d of an earlier clone changed", history, i)
		}
		want := len(old) == len(model)
		for i := 0; want && i < len(old); i++ {
			want = bytes.Equal(oldEnc[i], model[i])
		}
		t.Check(l.Equal(old) == want && old.Equal(l) == want, "issuer-keys:equal", "after %s Equal with the list before is %v", history, !want)
		for i := range l {
			for j := range l {
				t.Check(sign(l[i].Compare(l[j])) == sign(bytes.Compare(refBIKey(l[i]), refBIKey(l[j]))), "issuer-keys:compare", "keys %x and %x compare as %d", refBIKey(l[i]), refBIKey(l[j]), l[i].Compare(l[j]))
			}
		}
	}
}

func widen[T iotago.ContextInput](l []T) (out []iotago.ContextInput) {
	for _, x := range l {
		out = append(out, x)
	}

	return out
}

func sign(n int) int {
	switch {
	case n < 0:
		return -1
	case n > 0:
		return 1
	}

	return 0
}

// p34Sorts: comparison and sorting of allotments, context inputs and weighted addresses.
func p34Sorts(t *Case) {
	r := t.R
	// allotments
	al := genAllotments(r, 12)
	if len(al) > 1 && coin(r, 2) { // close relatives
		x := *al[0]
		x.AccountID[r.Intn(32)] ^= 1 << uint(r.Intn(8))
		al = append(al, &x)
	}
	r.Shuffle(len(al), func(i, j int) { al[i], al[j] = al[j], al[i] })
	held := append(iotago.Allotments{}, al...)
	al.Sort()
	t.Check(sameMultiset(al, held, func(a *iotago.Allotment) []byte { return fmt.Appendf(nil, "%p", a) }), "sort:allotments-elements", "sorting changed the elements")
	for i := 1; i < len(al); i++ {
		t.Check(bytes.Compare(al[i-1].AccountID[:], al[i].AccountID[:]) <= 0, "sort:allotments", "allotments %d and %d are out of order", i-1, i)
		t.Check(sign(al[i-1].Compare(al[i])) == bytes.Compare(al[i-1].AccountID[:], al[i].AccountID[:]), "sort:allotments-compare", "allotments compare as %d", al[i-1].Compare(al[i]))
	}
	// lookups do not depend on the order
	for _, list := range []iotago.Allotments{held, al} {
		ids := map[iotago.AccountID]iotago.Mana{}
		for i := len(list) - 1; i >= 0; i-- {
			ids[list[i].AccountID] = list[i].Mana
		}
		for id, m := range ids {
			got := list.Get(id)
			t.Check(got == m, "allotments:get", "Get(%x) is %d, expected %d", id, got, m)
		}
		other := iotago.AccountID(r32(r))
		if _, has := ids[other]; !has {
			t.Check(list.Get(other) == 0, "allotments:get", "Get of an account without allotment is %d", list.Get(other))
		}
	}
	t.Eval(fmt.Sprintf("allotments:%d", len(al)))

	// context inputs
	cis := genContextInputs(r)
	r.Shuffle(len(cis), func(i, j int) { cis[i], cis[j] = cis[j], cis[i] })
	heldC := append(iotago.TxEssenceContextInputs{}, cis...)
	cis.Sort()
	t.Check(sameMultiset(widen(cis), widen(heldC), func(c iotago.ContextInput) []byte { return fmt.Appendf(nil, "%p", c) }), "sort:context-inputs-elements", "sorting changed the elements")
	key := func(c iotago.ContextInput) []byte {
		switch x := c.(type) {
		case *iotago.CommitmentInput:
			return []byte{0}
		case *iotago.BlockIssuanceCreditInput:
			return append([]byte{1}, x.AccountID[:]...)
		case *iotago.RewardInput:
			return []byte{2, byte(x.Index >> 8), byte(x.Index)}
		}

		return nil
	}
	for i := range cis {
		for j := range cis {
			t.Check(sign(cis[i].Compare(cis[j])) == sign(bytes.Compare(key(cis[i]), key(cis[j]))), "sort:context-inputs-compare", "%x and %x compare as %d", key(cis[i]), key(cis[j]), cis[i].Compare(cis[j]))
			if i < j {
				t.Check(bytes.Compare(key(cis[i]), key(cis[j])) <= 0, "sort:context-inputs", "context inputs %d and %d are out of order", i, j)
			}
		}
	}
	cl := cis.Clone()
	if t.Check(len(cl) == len(cis), "context-inputs:clone", "the clone has %d of %d elements", len(cl), len(cis)) {
		for i := range cl {
			t.Check(cl[i] != nil && bytes.Equal(refContextInput(cl[i]), refContextInput(cis[i])), "context-inputs:clone", "element %d of the clone differs", i)
		}
	}
	t.Eval(fmt.Sprintf("context-inputs:%d", len(cis)))

	// weighted addresses
	var as iotago.AddressesWithWeight
	for i := r.Intn(12); i > 0; i-- {
		as = append(as, &iotago.AddressWithWeight{Address: genDirectAddr(r), Weight: byte(1 + r.Intn(255))})
	}
	heldA := append(iotago.AddressesWithWeight{}, as...)
	as.Sort()
	t.Check(sameMultiset(as, heldA, func(a *iotago.AddressWithWeight) []byte { return fmt.Appendf(nil, "%p", a) }), "sort:addresses-elements", "sorting changed the elements")
	for i := 1; i < len(as); i++ {
		c := bytes.Compare(refAddr(as[i-1].Address), refAddr(as[i].Address))
		t.Check(c <= 0 && sign(as[i-1].Compare(as[i])) == c && sign(as[i].Compare(as[i-1])) == -c, "sort:addresses", "addresses %d and %d are out of order or compare as %d", i-1, i, as[i-1].Compare(as[i]))
	}
	t.Eval(fmt.Sprintf("addresses:%d", len(as)))
	// features and unlock conditions compare by type
	f1, f2 := genFeature(r), genFeature(r)
	t.Check(sign(f1.Compare(f2)) == sign(int(f1.Type())-int(f2.Type())), "compare:features", "%s and %s compare as %d", f1.Type(), f2.Type(), f1.Compare(f2))
	u1, u2 := genUC(r), genUC(r)
	t.Check(sign(u1.Compare(u2)) == sign(int(u1.Type())-int(u2.Type())), "compare:unlock-conditions", "%s and %s compare as %d", u1.Type(), u2.Type(), u1.Compare(u2))
}

// p34Outputs: filters, sums and sets of lists of outputs.
func p34Outputs(t *Case) {
	r := t.R
	n := r.Intn(10)
	tokens := []iotago.NativeTokenID{genFoundryID(r), genFoundryID(r)}
	var outs iotago.TxEssenceOutputs
	for i := 0; i < n; i++ {
		o := genOutput(r)
		if b, is := o.(*iotago.BasicOutput); is && coin(r, 2) {
			amount := nonZeroBig(r)
			switch r.Intn(12) {
			case 0:
				amount = new(big.Int)
			case 1:
				amount = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(int64(1+r.Intn(3))))
			}
			b.Features.Upsert(&iotago.NativeTokenFeature{ID: tokens[r.Intn(2)], Amount: amount})
		}
		outs = append(outs, o)
	}
	enc := func(o iotago.TxEssenceOutput) []byte { return refOutput(o) }
	before := make([][]byte, len(outs))
	for i, o := range outs {
		before[i] = enc(o)
	}
	// filters keep the order and the elements
	for ty := iotago.OutputBasic; ty <= iotago.OutputDelegation; ty++ {
		var want iotago.TxEssenceOutputs
		for _, o := range outs {
			if o.Type() == ty {
				want = append(want, o)
			}
		}
		got := outs.Filter(iotago.OutputsFilterByType(ty))
		ok := len(got) == len(want)
		for i := 0; ok && i < len(want); i++ {
			ok = got[i] == want[i]
		}
		t.Check(ok, "outputs:filter", "filter by %s gives %d outputs, expected %d", ty, len(got), len(want))
	}
	calls := 0
	got := outs.Filter(func(iotago.Output) bool { calls++; return calls%2 == 0 })
	ok := calls == len(outs) && len(got) == len(outs)/2
	for i := 0; ok && i < len(got); i++ {
		ok = got[i] == outs[2*i+1]
	}
	t.Check(ok, "outputs:filter", "every second output of %d: %d outputs after %d calls", len(outs), len(got), calls)
	// sums of native tokens
	sums := map[iotago.NativeTokenID]*big.Int{}
	var wantErrs []error
	for _, o := range outs {
		feats, _ := refFeatList(o)
		for _, f := range feats {
			nt, is := f.(*iotago.NativeTokenFeature)
			if !is {
				continue
			}
			if nt.Amount.Sign() <= 0 {
				wantErrs = append(wantErrs, iotago.ErrNativeTokenAmountLessThanEqualZero)

				continue
			}
			if sums[nt.ID] == nil {
				sums[nt.ID] = new(big.Int)
			}
			sums[nt.ID] = new(big.Int).Add(sums[nt.ID], nt.Amount)
			if sums[nt.ID].BitLen() > 256 {
				wantErrs = append(wantErrs, iotago.ErrNativeTokenSumExceedsUint256)
			}
		}
	}
	sum, err := outs.NativeTokenSum()
	if len(wantErrs) > 0 {
		one := false
		for _, e := range wantErrs {
			one = one || errors.Is(err, e)
		}
		t.Check(one, "outputs:token-sum-error", "NativeTokenSum gives %v, expected one of %v", err, wantErrs)
		t.Eval(fmt.Sprintf("token-sum:%v", err))
	} else if t.Check(err == nil && len(sum) == len(sums), "outputs:token-sum", "NativeTokenSum has %d of %d tokens (%v)", len(sum), len(sums), err) {
		for id, w := range sums {
			t.Check(sum[id] != nil && sum[id].Cmp(w) == 0, "outputs:token-sum", "sum of %x is %s, expected %s", id, sum[id], w)
			if sum[id] != nil {
				sum[id].Add(sum[id], big.NewInt(1)) // a sum is the caller's own
			}
		}
		t.Eval(fmt.Sprintf("token-sum:%d", len(sums)))
	}
	for i, o := range outs {
		t.Check(bytes.Equal(enc(o), before[i]), "outputs:token-sum-aliases", "summing up or changing the sums changed output %d", i)
	}

	// sets by output ID
	var tx iotago.TransactionID = rid36(r)
	set, ins := iotago.OutputSet{}, vm.InputSet{}
	var ids iotago.OutputIDs
	for i, o := range outs {
		id := iotago.OutputIDFromTransactionIDAndIndex(tx, uint16(i))
		ids = append(ids, id)
		set[id], ins[id] = o, o
	}
	r.Shuffle(len(ids), func(i, j int) { ids[i], ids[j] = ids[j], ids[i] })
	at := func(id iotago.OutputID) iotago.Output { return outs[int(id[36])|int(id[37])<<8] }
	if coin(r, 3) && len(ids) > 0 {
		ids = append(ids, ids[r.Intn(len(ids))]) // twice the same
	}
	ordered := ids.OrderedSet(set)
	if t.Check(len(ordered) == len(ids), "output-set:ordered", "%d outputs for %d identifiers", len(ordered), len(ids)) {
		for i, id := range ids {
			t.Check(any(ordered[i]) == any(at(id)), "output-set:ordered", "output %d is not the one of its identifier", i)
		}
	}
	inputs := ids.UTXOInputs()
	hexes := iotago.HexOutputIDsFromOutputIDs(ids...)
	back, err := hexes.OutputIDs()
	if t.Check(err == nil && len(inputs) == len(ids) && len(hexes) == len(ids) && len(back) == len(ids), "output-ids:lists", "%d identifiers, %d inputs, %d texts, %d back (%v)", len(ids), len(inputs), len(hexes), len(back), err) {
		for i, id := range ids {
			in, is := inputs[i].(*iotago.UTXOInput)
			t.Check(is && in.TransactionID == tx && in.TransactionOutputIndex == uint16(id[36])|uint16(id[37])<<8, "output-ids:inputs", "input %d is %v for %x", i, inputs[i], id)
			t.Check(string(hexes[i]) == hx(id[:]) && back[i] == id, "output-ids:texts", "text %d is %s for %x", i, hexes[i], id)
			got, err := iotago.OutputIDHex(hexes[i]).AsUTXOInput()
			t.Check(err == nil && got.TransactionID == tx && got.TransactionOutputIndex == in.TransactionOutputIndex, "output-ids:text-input", "%v, %v for %s", got, err, hexes[i])
		}
		must := hexes.MustOutputIDs()
		t.Check(reflect.DeepEqual([]iotago.OutputID(must), []iotago.OutputID(back)), "output-ids:texts", "MustOutputIDs differs")
		if len(hexes) > 0 { // one text is wrong, wherever it is
			bad := append(iotago.HexOutputIDs{}, hexes...)
			bad[r.Intn(len(bad))] = iotago.HexOutputID([]string{"", "0x", "0x00", hx(rbytes(r, 37)), hx(rbytes(r, 39)), hx(rbytes(r, 38))[2:], "0xg" + hx(rbytes(r, 38))[3:]}[r.Intn(7)])
			_, err := bad.OutputIDs()
			t.Check(err != nil && guard0(func() { bad.MustOutputIDs() }), "output-ids:wrong-text", "a list with a wrong text is accepted: %v", bad)
		}
	}
	// filters of sets
	odd := set.Filter(func(id iotago.OutputID, o iotago.Output) bool {
		t.Check(any(o) == any(at(id)), "output-set:filter", "the filter is asked about an output under another identifier")

		return id[36]&1 == 1
	})
	t.Check(len(odd) == len(outs)/2 && len(set) == len(outs), "output-set:filter", "%d of %d outputs left", len(odd), len(set))
	for id, o := range odd {
		t.Check(id[36]&1 == 1 && any(o) == any(at(id)), "output-set:filter", "output %x should not be left", id)
	}
	// sets of the virtual machine
	os := ins.OutputSet()
	t.Check(len(os) == len(ins), "input-set:outputs", "%d of %d outputs", len(os), len(ins))
	for id, o := range os {
		t.Check(any(o) == any(at(id)), "input-set:outputs", "another output under %x", id)
	}
	wantChains := map[string]iotago.OutputID{}
	clash := false
	for i, o := range outs {
		id := iotago.OutputIDFromTransactionIDAndIndex(tx, uint16(i))
		if k, is := refChainKey(o, id); is {
			_, dup := wantChains[k]
			clash = clash || dup
			wantChains[k] = id
		}
	}
	if !clash {
		chains := ins.ChainInputSet()
		chainOuts := outs.ChainOutputSet(tx)
		t.Check(len(chains) == len(wantChains) && len(chainOuts) == len(wantChains), "chain-sets:length", "%d inputs and %d outputs of %d chains", len(chains), len(chainOuts), len(wantChains))
		for cid, c := range chains {
			id, has := wantChains[chainKeyOf(cid)]
			t.Check(has && c.OutputID == id && c.ChainID == cid && any(c.Output) == any(at(id)), "chain-sets:input", "chain %s is under %x, expected %x", chainKeyOf(cid), c.OutputID, id)
		}
		for cid, o := range chainOuts {
			id, has := wantChains[chainKeyOf(cid)]
			t.Check(has && any(o) == any(at(id)), "chain-sets:output", "chain %s is another output", chainKeyOf(cid))
		}
		t.Eval(fmt.Sprintf("chains:%d", len(wantChains)))
	}
	slot := iotago.SlotIndex(ru32(r))
	e := iotago.EmptyOutputIDWithCreationSlot(slot)
	var wantE iotago.OutputID
	wantE[32], wantE[33], wantE[34], wantE[35] = byte(slot), byte(slot>>8), byte(slot>>16), byte(slot>>24)
	t.Check(e == wantE && e.CreationSlot() == slot, "output-ids:empty-with-slot", "%x for slot %d", e, slot)
	t.Eval(fmt.Sprintf("outputs:%d", len(outs)))
}

// p34Attestations: the order of attestations, by slot of the commitment they refer to, then issuing time, then body
// hash; nothing else about them counts, and an absent attestation comes first.
func p34Attestations(t *Case) {
	r := t.R
	w := pickWorld(r)
	var l []*iotago.Attestation
	for i := 2 + r.Intn(6); i > 0; i-- {
		a := genAttestation(r, w)
		if len(l) > 0 && !coin(r, 5) { // a close relative
			b := *l[r.Intn(len(l))]
			switch r.Intn(7) {
			case 0:
				b.Header.IssuingTime = b.Header.IssuingTime.Add(time.Duration(r.Intn(7) - 3))
			case 1:
				b.Header.SlotCommitmentID = setSlot(b.Header.SlotCommitmentID, uint32(b.Header.SlotCommitmentID.Slot())+uint32(r.Intn(7)-3))
			case 2: // only the identifier part of the commitment ID
				b.Header.SlotCommitmentID[r.Intn(32)] ^= byte(1 << r.Intn(8))
			case 3:
				b.BodyHash[r.Intn(32)] ^= byte(1 << r.Intn(8))
			case 4:
				b.Header.IssuerID, b.Signature = r32(r), a.Signature
			case 5:
				b.Header.IssuingTime = b.Header.IssuingTime.In(time.FixedZone("x", r.Intn(40000)-20000))
			case 6:
				b.Header.LatestFinalizedSlot, b.Header.NetworkID = a.Header.LatestFinalizedSlot, ru64(r)
			}
			a = &b
		}
		l = append(l, a)
	}
	if coin(r, 3) {
		l = append(l, nil)
	}
	cmp := func(a, b uint64) int {
		switch {
		case a < b:
			return -1
		case a > b:
			return 1
		}

		return 0
	}
	what := ""
	want := func(a, b *iotago.Attestation) int {
		switch {
		case a == nil || b == nil:
			what = "nil"

			return map[[2]bool]int{{true, false}: -1, {false, true}: 1}[[2]bool{a == nil, b == nil}]
		}
		slot := func(a *iotago.Attestation) uint64 {
			return uint64(binary.LittleEndian.Uint32(a.Header.SlotCommitmentID[32:]))
		}
		if what = "slot"; slot(a) != slot(b) {
			return cmp(slot(a), slot(b))
		}
		if what = "time"; a.Header.IssuingTime.UnixNano() != b.Header.IssuingTime.UnixNano() {
			return cmp(uint64(a.Header.IssuingTime.UnixNano()), uint64(b.Header.IssuingTime.UnixNano()))
		}
		what = "body"

		return bytes.Compare(a.BodyHash[:], b.BodyHash[:])
	}
	for _, a := range l {
		for _, b := range l {
			w := want(a, b)
			t.Check(sign(a.Compare(b)) == w, "attestations:compare", "compared by %s: %d, expected %d", what, a.Compare(b), w)
			t.Eval(fmt.Sprintf("attestations:%s:%d", what, w))
		}
	}
}

// p34ContextInputs compares what a transaction says about its context inputs and inputs with the lists themselves.
func p34ContextInputs(t *Case) {
	r := t.R
	cis := genContextInputs(r)
	if coin(r, 2) {
		r.Shuffle(len(cis), func(i, j int) { cis[i], cis[j] = cis[j], cis[i] })
	}
	if coin(r, 4) {
		cis = append(cis, &iotago.CommitmentInput{CommitmentID: genSlotID(r)})
	}
	for _, c := range cis {
		switch c := c.(type) {
		case *iotago.CommitmentInput:
			switch r.Intn(4) {
			case 0:
				c.CommitmentID = setSlot(c.CommitmentID, uint32(r.Intn(2)))
			case 1:
				c.CommitmentID = iotago.CommitmentID{}
			}
		case *iotago.BlockIssuanceCreditInput:
			if coin(r, 4) {
				c.AccountID = iotago.AccountID{}
			}
		case *iotago.RewardInput:
			if coin(r, 2) {
				c.Index = uint16(r.Intn(2))
			}
		}
	}
	tx := &iotago.Transaction{API: worlds()[0].API, TransactionEssence: &iotago.TransactionEssence{ContextInputs: cis}}
	for i := r.Intn(4); i > 0; i-- {
		tx.TransactionEssence.Inputs = append(tx.TransactionEssence.Inputs, &iotago.UTXOInput{TransactionID: genSlotID(r), TransactionOutputIndex: uint16(r.Intn(128))})
	}
	var commitment *iotago.CommitmentInput
	bics, rewards := []*iotago.BlockIssuanceCreditInput{}, []*iotago.RewardInput{}
	for _, c := range cis {
		switch c := c.(type) {
		case *iotago.CommitmentInput:
			if commitment == nil {
				commitment = c
			}
		case *iotago.BlockIssuanceCreditInput:
			bics = append(bics, c)
		case *iotago.RewardInput:
			rewards = append(rewards, c)
		}
	}
	t.Check(tx.CommitmentInput() == commitment, "context-inputs:commitment", "%v, want %v", tx.CommitmentInput(), commitment)
	t.Check(reflect.DeepEqual(tx.BICInputs(), bics), "context-inputs:credits", "%v, want %v", tx.BICInputs(), bics)
	t.Check(reflect.DeepEqual(tx.RewardInputs(), rewards), "context-inputs:rewards", "%v, want %v", tx.RewardInputs(), rewards)
	all := tx.ContextInputs()
	if t.Check(len(all) == len(cis), "context-inputs:all", "%d, want %d", len(all), len(cis)) {
		for i := range all {
			t.Check(any(all[i]) == any(cis[i]), "context-inputs:all", "%d: %v, want %v", i, all[i], cis[i])
		}
	}
	ins := tx.Inputs()
	if t.Check(len(ins) == len(tx.TransactionEssence.Inputs), "context-inputs:inputs", "%d, want %d", len(ins), len(tx.TransactionEssence.Inputs)) {
		for i := range ins {
			t.Check(any(ins[i]) == any(tx.TransactionEssence.Inputs[i]), "context-inputs:inputs", "%d: %v", i, ins[i])
		}
	}
	t.Eval(fmt.Sprintf("context-inputs:%v:%d:%d:%d", commitment != nil, len(bics), len(rewards), len(ins)))
}

func init() {
	register("P34", func(c *Ctx) {
		c.Rule("Random histories of operations (insert or replace, remove, append, sort, clone, compare with variants) run on lists of features and unlock conditions of every element type, and on lists of block issuer keys, next to a plain model; after every step the elements, the set made from the list and the answers must be those of the model. Sets, filters, sums, orderings, lookups and conversions of random outputs, allotments, context inputs, weighted addresses and identifiers are compared with loops over the same elements. Distinct keys are collection, operation, outcome and size.")
		n := c.N(4000, 150000)
		c.Run("features", n, p34Features[iotago.Feature]("features"))
		c.Run("account-features", n/2, p34Features[iotago.AccountOutputFeature]("account-features"))
		c.Run("unlock-conditions", n, p34UCs[iotago.UnlockCondition]("unlock-conditions"))
		c.Run("feature-sets", n*2, p34FeatureSets)
		c.Run("unlock-condition-sets", n*2, p34UCSets)
		c.Run("issuer-keys", n, p34Keys)
		c.Run("sorts", n*2, p34Sorts)
		c.Run("outputs", n, p34Outputs)
		c.Run("attestations", n*2, p34Attestations)
		c.Run("context-inputs", n*2, p34ContextInputs)
	})
}
