package main

import (
	"bytes"
	"crypto"
	"fmt"
	"math/rand"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/iotaledger/hive.go/serializer/v2/serix"
	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/merklehasher"
	"github.com/iotaledger/iota.go/v4/vm/nova"
)

func init() { register("P23", p23) }

// readOp is an operation which only reads a shared object.
type readOp struct {
	name string
	f    func() string
}

// isWriter tells whether a method changes its receiver by its documented purpose.
func isWriter(name string, nargs int) bool {
	if name == "Set" && nargs == 0 { // turns a list into a set
		return false
	}
	for _, p := range []string{"Set", "Sort", "RemoveDups", "Remove", "Upsert", "Add", "Unmarshal", "Decode", "GobDecode", "Clear", "Push", "Reset", "JSONDecode"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}

	return false
}

// argFor supplies an argument of the type, or fails.
func argFor(t reflect.Type, recv reflect.Value, twin reflect.Value, w *World) (reflect.Value, bool) {
	if twin.IsValid() && twin.Type().AssignableTo(t) && t.Kind() == reflect.Interface && t.NumMethod() > 3 || twin.IsValid() && twin.Type() == t {
		return twin, true
	}
	for _, v := range []any{w.API, w.API.StorageScoreStructure(), w.PP.WorkScoreParameters(), w.PP, w.API.ManaDecayProvider(), w.API.TimeProvider(),
		iotago.Mana(3), iotago.SlotIndex(70000), iotago.EpochIndex(9), iotago.NetworkPrefix("verif"), iotago.StorageScoreFunc(nil), iotago.Address(keyPool[0].ed()), uint16(0)} {
		if rv := reflect.ValueOf(v); rv.IsValid() && rv.Type() == t || rv.IsValid() && t.Kind() == reflect.Interface && t.NumMethod() > 3 && rv.Type().AssignableTo(t) {
			return rv, true
		}
	}

	return reflect.Value{}, false
}

func showResult(name string, out []reflect.Value) string {
	var s []string
	for _, v := range out {
		switch {
		case v.Type().Implements(reflect.TypeOf((*error)(nil)).Elem()) && v.Kind() == reflect.Interface:
			s = append(s, fmt.Sprint("error ", !v.IsNil()))
		case v.Kind() == reflect.Map:
			s = append(s, fmt.Sprintf("map of %d", v.Len()))
		case v.Kind() == reflect.Func:
		case name == "String": // not specified
		case v.CanInterface():
			s = append(s, dump(v.Interface()))
		}
	}

	return strings.Join(s, ",")
}

// readersOf lists all operations which read x or a part of it. twin is an equal object.
func readersOf(x, twin any, w *World) (ops []readOp) {
	var parts []any
	visit(reflect.ValueOf(x), func(p any) { parts = append(parts, p) })
	var twins []any
	visit(reflect.ValueOf(twin), func(p any) { twins = append(twins, p) })
	if len(parts) == 0 {
		parts, twins = []any{x}, []any{twin}
	}
	for i, p := range parts {
		v := reflect.ValueOf(p)
		if strings.HasPrefix(v.Type().String(), "*big.") || strings.HasPrefix(v.Type().String(), "*time.") {
			continue
		}
		var tw reflect.Value
		if len(twins) == len(parts) {
			tw = reflect.ValueOf(twins[i])
		}
		for j := 0; j < v.NumMethod(); j++ {
			m, mt := v.Method(j), v.Type().Method(j)
			if isWriter(mt.Name, m.Type().NumIn()) || m.Type().NumOut() == 0 || m.Type().IsVariadic() {
				continue
			}
			args, ok := []reflect.Value{}, true
			for k := 0; k < m.Type().NumIn() && ok; k++ {
				var a reflect.Value
				a, ok = argFor(m.Type().In(k), v, tw, w)
				args = append(args, a)
			}
			if !ok {
				continue
			}
			name := mt.Name
			ops = append(ops, readOp{v.Type().String() + "." + name, func() (s string) {
				defer func() {
					if r := recover(); r != nil {
						s = "panic"
					}
				}()

				return showResult(name, m.Call(args))
			}})
		}
	}

	return ops
}

// race runs the operations from several goroutines, each in its own order, and compares with the sequential answers of a twin.
func sharedRun(t *Case, family string, shared, expected []readOp, goroutines, rounds int) {
	want := make([]string, len(expected))
	for i, op := range expected {
		want[i] = op.f()
	}
	start := make(chan struct{})
	var wg sync.WaitGroup
	var mu sync.Mutex
	var n atomic.Int64
	for g := 0; g < goroutines; g++ {
		order := rand.New(rand.NewSource(t.R.Int63())).Perm(len(shared))
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for k := 0; k < rounds; k++ {
				for _, i := range order {
					got := shared[i].f()
					n.Add(1)
					if got != want[i] {
						mu.Lock()
						t.Violate("shared:"+family+":"+shared[i].name, "%s answered differently when called concurrently on a shared object\n got  %.300s\n want %.300s", shared[i].name, got, want[i])
						mu.Unlock()

						return
					}
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	t.Add("concurrent-calls:"+family, n.Load())
}

func p23(c *Ctx) {
	c.Rule("objects: every reading method of every part of a shared object, plus its encoders, from five goroutines in different orders, under the race detector; answers must be those of an equal private object. codec: one fresh API decodes and encodes from six goroutines. vm: one scene executed by several goroutines on shared inputs. tools: shared signers, providers, hashers.")
	c.Assume("Methods documented to change their receiver (Set…, Sort, Remove…, Upsert, Unmarshal…) are not called on shared objects.")
	for _, k := range kinds {
		k := k
		c.RunSerial("objects/"+k.name, c.N(12, 400), func(t *Case) {
			w := pickWorld(t.R)
			seed := t.R.Int63()
			shared, twin, priv, privTwin := k.gen(rand.New(rand.NewSource(seed)), w), k.gen(rand.New(rand.NewSource(seed)), w), k.gen(rand.New(rand.NewSource(seed)), w), k.gen(rand.New(rand.NewSource(seed)), w)
			mk := func(x, twin any) []readOp {
				ops := readersOf(x, twin, w)
				ops = append(ops, readOp{"Encode", func() string { b, err := encodeKind(k, w, x); return fmt.Sprintf("%x %v", b, err != nil) }},
					readOp{"Encode(validated)", func() string {
						b, err := encodeKind(k, w, x, serix.WithValidation())
						return fmt.Sprintf("%x %v", b, err != nil)
					}},
					readOp{"JSONEncode", func() string { b, err := jsonEncodeKind(k, w, x); return fmt.Sprintf("%d %v", len(b), err != nil) }})

				return ops
			}
			a, b := mk(shared, twin), mk(priv, privTwin)
			if !t.Check(len(a) == len(b), "harness", "twins differ") {
				return
			}
			if len(a) > 400 { // large objects: a random part of their operations
				keep := t.R.Perm(len(a))[:400]
				var a2, b2 []readOp
				for _, i := range keep {
					a2, b2 = append(a2, a[i]), append(b2, b[i])
				}
				a, b = a2, b2
			}
			enc := k.ref(shared)
			sharedRun(t, "objects", a, b, 5, 1)
			t.Check(bytes.Equal(enc, k.ref(shared)), "shared:changed:"+k.name, "the object changed while it was only read")
			for _, op := range a {
				t.Eval(join("objects", k.name, op.name))
			}
		})
	}
	c.RunSerial("codec", c.N(40, 1500), func(t *Case) {
		w0 := pickWorld(t.R)
		w := &World{Name: w0.Name, API: iotago.V3API(w0.PP), PP: w0.PP} // nothing has been cached in this API yet
		type job struct {
			k   *kind
			x   any
			enc []byte
			js  []byte
		}
		var jobs []job
		for _, k := range kinds {
			x := k.gen(t.R, w0)
			js, err := jsonEncodeKind(k, w0, x)
			if err != nil {
				js = nil
			}
			jobs = append(jobs, job{k, x, k.ref(x), js})
		}
		start := make(chan struct{})
		var wg sync.WaitGroup
		var mu sync.Mutex
		for g := 0; g < 6; g++ {
			order := t.R.Perm(len(jobs))
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for _, i := range order {
					j := jobs[i]
					bad := ""
					if b, err := encodeKind(j.k, w, j.x); err != nil || !bytes.Equal(b, j.enc) {
						bad = "encode"
					}
					if y, n, err := j.k.dec(w, append([]byte{}, j.enc...)); err != nil || n != len(j.enc) || !bytes.Equal(j.k.ref(y), j.enc) {
						bad = "decode"
					}
					if j.js != nil && j.k.decJ != nil {
						if y, err := j.k.decJ(w, j.js); err != nil || !bytes.Equal(j.k.ref(y), j.enc) {
							bad = "json"
						}
					}
					t.Count("concurrent-codec-jobs")
					if bad != "" {
						mu.Lock()
						t.Violate("codec:"+bad+":"+j.k.name, "%s of a %s through a shared API gave another result", bad, j.k.name)
						mu.Unlock()
					}
				}
			}()
		}
		close(start)
		wg.Wait()
		t.Eval(join("codec", w.Name, itoa(t.Index)))
	})
	c.RunSerial("vm", c.N(60, 3000), func(t *Case) {
		sc, desc := vmScenes(t, "")
		if sc == nil {
			return
		}
		if vmUndecided(sc) != "" {
			return
		}
		_, stage, err := vmRun(sc)
		fp := sc.fingerprint()
		res := sc.resolved()
		m := nova.NewVirtualMachine()
		var wg sync.WaitGroup
		var mu sync.Mutex
		start := make(chan struct{})
		for k := 0; k < 5; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				stage2 := ""
				unlocked, err2 := m.ValidateUnlocks(sc.stx, res)
				if err2 != nil {
					stage2 = "unlock"
				} else if _, err2 = m.Execute(sc.stx.Transaction, res, unlocked); err2 != nil {
					stage2 = "execute"
				}
				if stage2 != stage {
					mu.Lock()
					t.Violate("vm:verdict", "the verdict of a transaction changed when it was executed concurrently: %v, alone %v\nchange: %s", err2, err, desc)
					mu.Unlock()
				}
				for _, o := range sc.ins {
					_ = o.UnlockConditionSet()
					_ = o.FeatureSet()
				}
			}()
		}
		close(start)
		wg.Wait()
		t.Check(sc.fingerprint() == fp, "vm:changed", "arguments changed")
		t.Add("concurrent-executions", 5)
		t.Eval(join("vm", stage, desc, itoa(len(sc.ins))))
	})
	c.RunSerial("validation", c.N(40, 1500), func(t *Case) { // the same block and transaction are validated by several goroutines
		w := pickWorld(t.R)
		seed := t.R.Int63()
		var stx, stx2 *iotago.SignedTransaction
		var blk, blk2 *iotago.Block
		gen := func() (*iotago.SignedTransaction, *iotago.Block) {
			r := rand.New(rand.NewSource(seed))

			return genValidSignedTx(r, w), genValidBlock(r, w)
		}
		stx, blk = gen()
		stx2, blk2 = gen()
		mk := func(stx *iotago.SignedTransaction, blk *iotago.Block) []readOp {
			return []readOp{
				{"SignedTransaction.syntactic", func() string { return fmt.Sprint(stx.Transaction.SyntacticallyValidate(w.API) == nil) }},
				{"Block.ID", func() string { id, err := blk.ID(); return fmt.Sprint(id, err) }},
				{"Block.WorkScore", func() string { id, err := blk.WorkScore(); return fmt.Sprint(id, err) }},
				{"Block.VerifySignature", func() string { id, err := blk.VerifySignature(); return fmt.Sprint(id, err != nil) }},
				{"Transaction.ID", func() string { id, err := stx.Transaction.ID(); return fmt.Sprint(id, err) }},
				{"Transaction.SigningMessage", func() string { id, err := stx.Transaction.SigningMessage(); return fmt.Sprintf("%x %v", id, err) }},
				{"Attestation", func() string {
					a := iotago.NewAttestation(w.API, blk)
					id, err := a.BlockID()
					return fmt.Sprint(id, err)
				}},
				{"encode", func() string { b, err := w.API.Encode(blk); return fmt.Sprintf("%x %v", b, err) }},
				{"encode-tx", func() string { b, err := w.API.Encode(stx); return fmt.Sprintf("%x %v", b, err) }},
			}
		}
		sharedRun(t, "validation", mk(stx, blk), mk(stx2, blk2), 6, 2)
		t.Eval(join("validation", w.Name, fmt.Sprint(blk.Body.Type())))
	})
	c.RunSerial("tools", c.N(80, 3000), func(t *Case) {
		w := pickWorld(t.R)
		api := iotago.V3API(w.PP)
		mk := func(api iotago.API) (ops []readOp) {
			r := rand.New(rand.NewSource(int64(t.Index)*7 + t.Seed))
			var keys []iotago.AddressKeys
			for i := 0; i < 6; i++ {
				keys = append(keys, iotago.NewAddressKeysForEd25519Address(keyPool[i].ed(), keyPool[i].Priv))
			}
			signer := iotago.NewInMemoryAddressSigner(keys...)
			h := merklehasher.NewHasher[iotago.Identifier](crypto.BLAKE2b_256)
			msg := rbytes(r, 40)
			for i := 0; i < 30; i++ {
				addr := iotago.Address(keyPool[r.Intn(8)].ed())
				slot, slot2, ep := iotago.SlotIndex(w.PP.GenesisSlot())+iotago.SlotIndex(r.Intn(1<<20)), iotago.SlotIndex(r.Intn(1<<16)), iotago.EpochIndex(r.Intn(1000))
				mana, amount := iotago.Mana(r.Int63n(1<<50)), iotago.BaseToken(r.Int63n(1<<50))
				o := genOutput(r)
				vals := make([]iotago.Identifier, 1+r.Intn(9))
				for i := range vals {
					vals[i] = r32(r)
				}
				ops = append(ops,
					readOp{"Sign", func() string { s, err := signer.Sign(addr, msg); return fmt.Sprint(dump(s), err != nil) }},
					readOp{"SignerUID", func() string { s, err := signer.SignerUIDForAddress(addr); return fmt.Sprint(s, err != nil) }},
					readOp{"EmptySignature", func() string { s, err := signer.EmptySignatureForAddress(addr); return fmt.Sprint(dump(s), err != nil) }},
					readOp{"time", func() string {
						tp := api.TimeProvider()
						return fmt.Sprint(tp.SlotStartTime(slot), tp.SlotEndTime(slot), tp.EpochFromSlot(slot), tp.EpochStart(ep), tp.EpochEnd(ep), tp.SlotFromTime(tp.SlotStartTime(slot)))
					}},
					readOp{"mana", func() string {
						mp := api.ManaDecayProvider()
						a, e1 := mp.DecayManaBySlots(mana, slot, slot+slot2)
						b, e2 := mp.GenerateManaAndDecayBySlots(amount, slot, slot+slot2)
						c, e3 := mp.DecayManaByEpochs(mana, ep, ep+7)
						return fmt.Sprint(a, b, c, e1 != nil, e2 != nil, e3 != nil)
					}},
					readOp{"storage", func() string {
						d, err := api.StorageScoreStructure().MinDeposit(o)
						d2, err2 := api.StorageScoreStructure().MinStorageDepositForReturnOutput(addr)
						return fmt.Sprint(d, err != nil, d2, err2 != nil, api.MaxBlockWork())
					}},
					readOp{"merkle", func() string {
						root, err := h.HashValues(vals)
						p, err2 := h.ComputeProofForIndex(vals, 0)
						if err2 != nil {
							return "error"
						}
						return fmt.Sprintf("%x %v %x", root, err, p.Hash(h))
					}},
					readOp{"bech32", func() string {
						hrp, a, err := iotago.ParseBech32(addr.Bech32("iota"))
						return fmt.Sprint(hrp, dump(a), err)
					}},
				)
			}

			return ops
		}
		sharedRun(t, "tools", mk(api), mk(iotago.V3API(w.PP)), 6, 1)
		t.Eval(join("tools", w.Name, itoa(t.Index)))
	})
}
