package main

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"reflect"

	"github.com/iotaledger/hive.go/serializer/v2/serix"
	iotago "github.com/iotaledger/iota.go/v4"
)

func init() {
	register("P04", func(c *Ctx) {
		c.Rule("Identifiers of random blocks, attestations, transactions, signed transactions, commitments, roots, outputs, chains, foundries and addresses are computed with the code under test and with an independent reference (BLAKE2b-256 over the documented layout, RFC 6962 Merkle trees, slot suffix); they must agree, must be the same after decoding the object from bytes and from JSON, and after changing one random field the identifier must change exactly if the reference's does. Distinct keys: kind, changed field.")
		c.Assume("The reference identifiers are written from the protocol's documented layout; BLAKE2b (x/crypto) and its collision resistance are trusted.")
		c.Run("block", c.N(2500, 60000), p04Block)
		c.Run("tx", c.N(2500, 60000), p04Tx)
		c.Run("many-outputs", c.N(40, 1000), func(t *Case) {
			// up to the limit of what a transaction may create
			w := pickWorld(t.R)
			tx := genValidTx(t.R, w)
			for n := 120 + t.R.Intn(9); len(tx.Outputs) < n; {
				tx.Outputs = append(tx.Outputs, &iotago.BasicOutput{Amount: iotago.BaseToken(1 + t.R.Intn(1000)), UnlockConditions: iotago.BasicOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: genAddr(t.R)}}})
			}
			t.Note("%d outputs", len(tx.Outputs))
			checkTxIDs(t, w, tx, "many-outputs")
			t.Eval(fmt.Sprint("many-outputs:", len(tx.Outputs)))
		})
		c.Run("commitment", c.N(4000, 80000), p04Commitment)
		c.Run("address", c.N(6000, 120000), p04Address)
		c.Run("chain", c.N(6000, 120000), p04Chain)
	})
}

// encodable tells whether the object can still be encoded (a random change may break a length limit).
func encodable(w *World, obj any) bool {
	_, err := w.API.Encode(obj)

	return err == nil
}

func hex32(x [32]byte) string { return fmt.Sprintf("%x", x) }

// checkBlockIDs compares everything which identifies a block with the reference.
func checkBlockIDs(t *Case, w *World, b *iotago.Block, how string) iotago.BlockID {
	want := refBlockID(w, b)
	enc := refBlock(b)
	id, err := b.ID()
	t.Check(err == nil && id == want, "block-id:"+how, "block ID %x (%v), want %x", id, err, want)
	t.Check(b.MustID() == want, "block-id:"+how, "MustID differs")
	t.Check(uint32(b.Slot()) == idSlot(want) && id.Slot() == b.Slot() && id.Index() == b.Slot(), "block-slot", "slot %d of the block, %d in its ID, want %d", b.Slot(), id.Slot(), idSlot(want))
	ident, err := iotago.BlockIdentifierFromBlockBytes(enc)
	t.Check(err == nil && bytes.Equal(ident[:], want[:32]), "block-identifier-from-bytes", "identifier %x (%v), want %x", ident, err, want[:32])
	t.Check(b.IDWithBlockIdentifier(ident) == want, "block-id-with-identifier", "got %x", b.IDWithBlockIdentifier(ident))
	t.Check(id.Identifier() == ident, "block-id-identifier", "identifier of the ID is %x", id.Identifier())
	hh, err := b.Header.Hash(w.API)
	wantHH := blake(refHeader(&b.Header))
	t.Check(err == nil && hh == wantHH, "header-hash", "header hash %x (%v), want %x", hh, err, wantHH)
	bh, err := b.Body.Hash()
	wantBH := blake(refBody(b.Body))
	t.Check(err == nil && bh == wantBH, "body-hash", "body hash %x (%v), want %x", bh, err, wantBH)

	att := iotago.NewAttestation(w.API, b)
	aid, err := att.BlockID()
	t.Check(err == nil && aid == want, "attestation-block-id", "block ID of the attestation %x (%v), want %x", aid, err, want)
	t.Check(att.Slot() == b.Slot(), "attestation-slot", "slot %d, want %d", att.Slot(), b.Slot())

	return want
}

func p04Block(t *Case) {
	w := pickWorld(t.R)
	var b *iotago.Block
	valid := coin(t.R, 2)
	if valid {
		b = genValidBlock(t.R, w)
	} else {
		b = genBlock(t.R, w)
	}
	t.Note("world %s block %x", w.Name, refBlock(b))
	t.Sample(map[string]any{"world": w.Name, "block": fmt.Sprintf("%.120x", refBlock(b))})
	id := checkBlockIDs(t, w, b, "built")
	if valid {
		d, _, err := iotago.BlockFromBytes(iotago.SingleVersionProvider(w.API))(refBlock(b))
		if t.Check(err == nil, "block-decode", "%v", err) {
			checkBlockIDs(t, w, d, "decoded")
		}
		if j, err := w.API.JSONEncode(b); t.Check(err == nil, "block-json", "%v", err) {
			d := new(iotago.Block)
			if err := w.API.JSONDecode(j, d, serix.WithValidation()); t.Check(err == nil, "block-json", "%v", err) {
				checkBlockIDs(t, w, d, "json")
			}
		}
		// the attestation survives its own encoding
		att := iotago.NewAttestation(w.API, b)
		ab, err := att.Bytes()
		if t.Check(err == nil, "attestation-bytes", "%v", err) {
			d, _, err := iotago.AttestationFromBytes(iotago.SingleVersionProvider(w.API))(ab)
			if t.Check(err == nil, "attestation-decode", "%v", err) {
				aid, err := d.BlockID()
				t.Check(err == nil && aid == id, "attestation-block-id", "decoded attestation has block ID %x (%v), want %x", aid, err, id)
			}
		}
	}
	for i := 0; i < 4; i++ {
		before := refBlock(b)
		field, changed := perturb(t.R, reflect.ValueOf(b))
		if !changed || b.Header.IssuingTime.Unix() < 0 || b.Header.IssuingTime.Year() > 2200 || !encodable(w, b) {
			return
		}
		id2 := checkBlockIDs(t, w, b, "changed")
		if !bytes.Equal(before, refBlock(b)) {
			t.Check(id2 != id, "block-id-collision", "changing %s did not change the ID", field)
		}
		id = id2
		t.Eval("block:" + fmt.Sprintf("%T", b.Body) + field)
	}
}

func checkTxIDs(t *Case, w *World, tx *iotago.Transaction, how string) iotago.TransactionID {
	want := refTxID(tx)
	id, err := tx.ID()
	t.Check(err == nil && id == want && tx.MustID() == want, "tx-id:"+how, "transaction ID %x (%v), want %x", id, err, want)
	t.Check(id.Slot() == tx.CreationSlot, "tx-id-slot", "slot %d, want %d", id.Slot(), tx.CreationSlot)
	tc, err := tx.TransactionCommitment()
	wantTC := blake(refEssence(tx.TransactionEssence))
	t.Check(err == nil && tc == wantTC, "tx-commitment:"+how, "transaction commitment %x (%v), want %x", tc, err, wantTC)
	oc, err := tx.OutputCommitment()
	wantOC := refOutputCommitment(tx.Outputs)
	t.Check(err == nil && oc == wantOC, "output-commitment:"+how, "output commitment %x (%v), want %x", oc, err, wantOC)
	t.Check(iotago.TransactionIDFromTransactionCommitmentAndOutputCommitment(tx.CreationSlot, wantTC, wantOC) == want, "tx-id-from-commitments", "differs")
	set, err := tx.OutputsSet()
	if t.Check(err == nil && len(set) == len(tx.Outputs), "outputs-set", "%d outputs in the set (%v), want %d", len(set), err, len(tx.Outputs)) {
		for i, o := range tx.Outputs {
			oid := refOutputID(want, uint16(i))
			t.Check(set[oid] == iotago.Output(o), "outputs-set", "output %d is not at its ID", i)
			got := iotago.OutputIDFromTransactionIDAndIndex(want, uint16(i))
			t.Check(got == oid && got.TransactionID() == want && got.Index() == uint16(i) && got.CreationSlot() == tx.CreationSlot && got.Slot() == tx.CreationSlot, "output-id", "output ID %x, want %x", got, oid)
			in := got.UTXOInput()
			t.Check(in.TransactionID == want && in.TransactionOutputIndex == uint16(i) && in.OutputID() == oid, "utxo-input", "%v", in)
			tid, idx, err := iotago.OutputIDHex(fmt.Sprintf("0x%x", oid[:])).SplitParts()
			t.Check(err == nil && *tid == want && idx == uint16(i), "output-id-hex", "%v %v %v", tid, idx, err)
		}
	}
	for _, o := range tx.Outputs {
		if f, is := o.(*iotago.FoundryOutput); is && f.UnlockConditionSet().ImmutableAccount() == nil {
			return want // the ID of a foundry without an owner is undefined
		}
	}
	// chain outputs are found under their (possibly still to be derived) ID
	chains := tx.Outputs.ChainOutputSet(want)
	wantChains := map[string]iotago.Output{}
	for i, o := range tx.Outputs {
		if k, ok := refChainKey(o, refOutputID(want, uint16(i))); ok {
			wantChains[k] = o
		}
	}
	t.Check(len(chains) == len(wantChains), "chain-output-set", "%d chains, want %d", len(chains), len(wantChains))
	for cid, o := range chains {
		k := chainKeyOf(cid)
		t.Check(wantChains[k] != nil && (wantChains[k] == iotago.Output(o) || bytes.Equal(refOutput(wantChains[k]), refOutput(o))), "chain-output-set", "chain %s is not expected", k)
	}

	return want
}

// refChainKey names the chain which an output belongs to.
func refChainKey(o iotago.Output, id iotago.OutputID) (string, bool) {
	h := blake(id[:])
	derive := func(kind string, cid [32]byte) (string, bool) {
		if cid == ([32]byte{}) {
			cid = h
		}

		return fmt.Sprintf("%s:%x", kind, cid[:]), true
	}
	switch x := o.(type) {
	case *iotago.AccountOutput:
		return derive("account", x.AccountID)
	case *iotago.AnchorOutput:
		return derive("anchor", x.AnchorID)
	case *iotago.NFTOutput:
		return derive("nft", x.NFTID)
	case *iotago.DelegationOutput:
		return derive("delegation", x.DelegationID)
	case *iotago.FoundryOutput:
		fid := refFoundryID(x)

		return fmt.Sprintf("foundry:%x", fid[:]), true
	}

	return "", false
}

func chainKeyOf(c iotago.ChainID) string {
	switch x := c.(type) {
	case iotago.AccountID:
		return fmt.Sprintf("account:%x", x[:])
	case iotago.AnchorID:
		return fmt.Sprintf("anchor:%x", x[:])
	case iotago.NFTID:
		return fmt.Sprintf("nft:%x", x[:])
	case iotago.DelegationID:
		return fmt.Sprintf("delegation:%x", x[:])
	case iotago.FoundryID:
		return fmt.Sprintf("foundry:%x", x[:])
	}

	return fmt.Sprintf("%T", c)
}

func p04Tx(t *Case) {
	w := pickWorld(t.R)
	valid := coin(t.R, 2)
	var st *iotago.SignedTransaction
	if valid {
		st = genValidSignedTx(t.R, w)
	} else {
		st = genSignedTx(t.R, w)
	}
	t.Note("world %s transaction %x", w.Name, refSignedTx(st))
	t.Sample(map[string]any{"world": w.Name, "transaction": fmt.Sprintf("%.120x", refSignedTx(st))})
	check := func(st *iotago.SignedTransaction, how string) (iotago.TransactionID, iotago.SignedTransactionID) {
		id := checkTxIDs(t, w, st.Transaction, how)
		want := refSignedTxID(st)
		sid, err := st.ID()
		t.Check(err == nil && sid == want && st.MustID() == want && sid.Slot() == st.Transaction.CreationSlot, "signed-tx-id:"+how, "signed transaction ID %x (%v), want %x", sid, err, want)

		return id, sid
	}
	id, sid := check(st, "built")
	if valid {
		d := new(iotago.SignedTransaction)
		if _, err := w.API.Decode(refSignedTx(st), d, serix.WithValidation()); t.Check(err == nil, "tx-decode", "%v", err) {
			check(d, "decoded")
		}
		if j, err := w.API.JSONEncode(st); t.Check(err == nil, "tx-json", "%v", err) {
			d := new(iotago.SignedTransaction)
			if err := w.API.JSONDecode(j, d, serix.WithValidation()); t.Check(err == nil, "tx-json", "%v", err) {
				check(d, "json")
			}
		}
	}
	for i := 0; i < 4; i++ {
		before, beforeTx := refSignedTx(st), refTx(st.Transaction)
		field, changed := perturb(t.R, reflect.ValueOf(st))
		if !changed || !encodable(w, st) {
			return
		}
		id2, sid2 := check(st, "changed")
		if !bytes.Equal(before, refSignedTx(st)) {
			t.Check(sid2 != sid, "signed-tx-id-collision", "changing %s did not change the ID", field)
		}
		t.Check((id2 != id) == !bytes.Equal(beforeTx, refTx(st.Transaction)), "tx-id-collision", "changing %s: transaction ID changed: %v", field, id2 != id)
		id, sid = id2, sid2
		t.Eval("tx:" + field)
	}
}

func p04Commitment(t *Case) {
	c := genCommitment(t.R)
	r := genRoots(t.R)
	roots := [][]byte{r.TangleRoot[:], r.StateMutationRoot[:], r.StateRoot[:], r.AccountRoot[:], r.AttestationsRoot[:], r.CommitteeRoot[:], r.RewardsRoot[:], r.ProtocolParametersHash[:]}
	check := func() (a, b string) {
		want := refCommitmentID(c)
		id, err := c.ID()
		t.Check(err == nil && id == want && c.MustID() == want && id.Slot() == c.Slot, "commitment-id", "commitment ID %x (%v), want %x", id, err, want)
		for i, x := range [][]byte{r.TangleRoot[:], r.StateMutationRoot[:], r.StateRoot[:], r.AccountRoot[:], r.AttestationsRoot[:], r.CommitteeRoot[:], r.RewardsRoot[:], r.ProtocolParametersHash[:]} {
			roots[i] = x
		}
		wantR := refMerkle(roots)
		t.Check(r.ID() == wantR, "roots-id", "roots ID %x, want %x", r.ID(), wantR)

		return string(want[:]), string(wantR[:])
	}
	a, b := check()
	w := pickWorld(t.R)
	d := new(iotago.Commitment)
	if j, err := w.API.JSONEncode(c); t.Check(err == nil && w.API.JSONDecode(j, d) == nil, "commitment-json", "%v", err) {
		t.Check(string(d.MustID().ToHex()) == c.MustID().ToHex(), "commitment-id", "different ID after JSON")
	}
	t.Check(iotago.NewCommitment(c.ProtocolVersion, c.Slot, c.PreviousCommitmentID, c.RootsID, c.CumulativeWeight, c.ReferenceManaCost).MustID() == c.MustID(), "new-commitment", "NewCommitment built another commitment")
	e := iotago.NewEmptyCommitment(w.API)
	e2 := &iotago.Commitment{ProtocolVersion: w.PP.Version(), Slot: w.PP.GenesisSlot(), ReferenceManaCost: w.PP.CongestionControlParameters().MinReferenceManaCost}
	t.Check(e.MustID() == refCommitmentID(e2), "empty-commitment", "genesis commitment %+v", e)
	t.Note("commitment %+v roots %+v", c, r)
	for i := 0; i < 6; i++ {
		f1, _ := perturb(t.R, reflect.ValueOf(c))
		f2, _ := perturb(t.R, reflect.ValueOf(r))
		a2, b2 := check()
		t.Check(a2 != a && b2 != b, "commitment-collision", "changing %s / %s did not change the ID", f1, f2)
		a, b = a2, b2
		t.Eval("commitment:" + f1 + f2)
	}
}

func p04Address(t *Case) {
	a := genAnyAddr(t.R)
	t.Note("address %x", refAddr(a))
	check := func(a iotago.Address, how string) []byte {
		want := refAddrID(a)
		t.Check(bytes.Equal(a.ID(), want), "address-id:"+how, "ID %x, want %x", a.ID(), want)
		t.Check(a.Key() == string(want), "address-key:"+how, "key %x, want %x", a.Key(), want)

		return want
	}
	id := check(a, "built")
	w := pickWorld(t.R)
	var d iotago.Address
	if _, err := w.API.Decode(refAddr(a), &d); t.Check(err == nil, "address-decode", "%v", err) {
		check(d, "decoded")
	}
	if m, is := a.(*iotago.MultiAddress); is {
		ref := iotago.NewMultiAddressReferenceFromMultiAddress(m)
		t.Check(bytes.Equal(ref.ID(), id) && ref.Key() == string(id), "multi-reference-id", "reference ID %x, want %x", ref.ID(), id)
		ref2, n, err := iotago.MultiAddressReferenceFromBytes(append([]byte{}, id...))
		t.Check(err == nil && n == len(id) && bytes.Equal(ref2.ID(), id), "multi-reference-id", "from bytes: %v", err)
		if err == nil {
			t.Check(ref2.Equal(ref) && ref2.String() == "0x"+hex.EncodeToString(id) && !ref2.Equal(m) && !ref2.Equal(nil), "multi-reference-equal", "the reference %x does not equal itself, or it equals the address", id)
			cl, is := ref2.Clone().(*iotago.MultiAddressReference)
			if t.Check(is && bytes.Equal(cl.ID(), id), "multi-reference-clone", "clone %v of %x", cl, id) {
				cl.MultiAddressID[len(id)-1] ^= 1
				t.Check(bytes.Equal(ref2.ID(), id) && !ref2.Equal(cl), "multi-reference-clone", "the clone shares the ID, or another reference equals %x", id)
			}
		}
	}
	if c, is := a.(iotago.ChainAddress); is {
		var raw [32]byte
		copy(raw[:], refAddr(a)[1:])
		cid := c.ChainID()
		t.Check(chainKeyOf(cid) == fmt.Sprintf("%s:%x", map[iotago.AddressType]string{iotago.AddressAccount: "account", iotago.AddressAnchor: "anchor", iotago.AddressNFT: "nft"}[a.Type()], raw[:]), "chain-address-id", "chain ID %s of %x", chainKeyOf(cid), raw)
		t.Check(cid.Addressable() && bytes.Equal(refAddr(cid.ToAddress()), refAddr(a)), "chain-to-address", "address of the chain ID differs")
	}
	before := refAddr(a)
	field, changed := perturb(t.R, reflect.ValueOf(a))
	if changed && encodable(w, a) {
		id2 := check(a, "changed")
		t.Check(bytes.Equal(id2, id) == bytes.Equal(before, refAddr(a)), "address-collision", "changing %s: same ID %v", field, bytes.Equal(id, id2))
	}
	t.Eval("address:" + fmt.Sprintf("%T", a) + field)

	// addresses of public keys
	k := keyPool[t.R.Intn(len(keyPool))]
	h := k.hash()
	t.Check(*iotago.Ed25519AddressFromPubKey(k.Pub) == h, "address-from-pubkey", "Ed25519 address of a public key")
	t.Check(*iotago.ImplicitAccountCreationAddressFromPubKey(k.Pub) == h, "address-from-pubkey", "implicit account address of a public key")
	bik := iotago.Ed25519PublicKeyHashBlockIssuerKeyFromPublicKey([32]byte(k.Pub))
	t.Check(bik.PublicKeyHash == h, "bik-from-pubkey", "block issuer key of a public key")
}

func p04Chain(t *Case) {
	oid := genOutputID(t.R)
	h := blake(oid[:])
	hex := fmt.Sprintf("%x", h[:])
	t.Note("output ID %x", oid)
	t.Check(hex32(iotago.AccountIDFromOutputID(oid)) == hex, "account-id", "account ID of an output ID")
	t.Check(hex32(iotago.AnchorIDFromOutputID(oid)) == hex, "anchor-id", "anchor ID of an output ID")
	t.Check(hex32(iotago.NFTIDFromOutputID(oid)) == hex, "nft-id", "NFT ID of an output ID")
	t.Check(hex32(iotago.DelegationIDFromOutputID(oid)) == hex, "delegation-id", "delegation ID of an output ID")
	t.Check(hex32(*iotago.AccountAddressFromOutputID(oid)) == hex, "account-address", "account address of an output ID")
	t.Check(hex32(*iotago.AnchorAddressFromOutputID(oid)) == hex, "anchor-address", "anchor address of an output ID")
	t.Check(hex32(*iotago.NFTAddressFromOutputID(oid)) == hex, "nft-address", "NFT address of an output ID")
	for _, c := range []iotago.UTXOIDChainID{iotago.EmptyAccountID, iotago.EmptyAnchorID, iotago.EmptyNFTID(), iotago.EmptyDelegationID(), iotago.AccountID(r32(t.R)), iotago.NFTID(r32(t.R))} {
		k := chainKeyOf(c.FromOutputID(oid))
		t.Check(k == map[string]string{"iotago.AccountID": "account", "iotago.AnchorID": "anchor", "iotago.NFTID": "nft", "iotago.DelegationID": "delegation"}[fmt.Sprintf("%T", c)]+":"+hex, "from-output-id", "%T: %s", c, k)
	}
	// chain IDs match exactly themselves
	ids := []iotago.ChainID{iotago.AccountID(h), iotago.AnchorID(h), iotago.NFTID(h), iotago.DelegationID(h), genFoundryID(t.R)}
	for i, a := range ids {
		for j, b := range ids {
			t.Check(a.Matches(b) == (i == j), "chain-matches", "%T matches %T: %v", a, b, a.Matches(b))
		}
		var other iotago.ChainID
		g := h
		g[t.R.Intn(32)] ^= 1 << t.R.Intn(8)
		switch x := a.(type) {
		case iotago.AccountID:
			other = iotago.AccountID(g)
		case iotago.AnchorID:
			other = iotago.AnchorID(g)
		case iotago.NFTID:
			other = iotago.NFTID(g)
		case iotago.DelegationID:
			other = iotago.DelegationID(g)
		case iotago.FoundryID:
			x[t.R.Intn(len(x))] ^= 1 << t.R.Intn(8)
			other = x
		}
		t.Check(!a.Matches(other), "chain-matches", "%T matches an ID which differs in one bit", a)
		t.Check(!a.Empty(), "chain-empty", "%T is empty", a)
	}
	for _, e := range []iotago.ChainID{iotago.EmptyAccountID, iotago.EmptyAnchorID, iotago.EmptyNFTID(), iotago.EmptyDelegationID(), iotago.FoundryID{}} {
		t.Check(e.Empty(), "chain-empty", "empty %T is not empty", e)
	}
	// foundry IDs
	acc := iotago.AccountAddress(r32(t.R))
	serial := ru32(t.R)
	fid, err := iotago.FoundryIDFromAddressAndSerialNumberAndTokenScheme(&acc, serial, iotago.TokenSchemeSimple)
	want := append([]byte{8}, acc[:]...)
	want = append(binary.LittleEndian.AppendUint32(want, serial), 0)
	t.Check(err == nil && bytes.Equal(fid[:], want), "foundry-id", "foundry ID %x (%v), want %x", fid, err, want)
	t.Check(fid.FoundrySerialNumber() == serial, "foundry-serial", "serial %d, want %d", fid.FoundrySerialNumber(), serial)
	fa, err := fid.AccountAddress()
	t.Check(err == nil && *fa == acc, "foundry-account", "account %x (%v), want %x", fa, err, acc)
	f := genOutputType(t.R, iotago.OutputFoundry).(*iotago.FoundryOutput)
	wantF := refFoundryID(f)
	got, err := f.FoundryID()
	t.Check(err == nil && bytes.Equal(got[:], wantF[:]) && f.MustFoundryID() == got && chainKeyOf(f.ChainID()) == fmt.Sprintf("foundry:%x", wantF[:]), "foundry-output-id", "foundry ID %x (%v), want %x", got, err, wantF)
	nt, err := f.NativeTokenID()
	t.Check(err == nil && bytes.Equal(nt[:], wantF[:]), "foundry-token-id", "native token ID %x (%v), want %x", nt, err, wantF)
	t.Eval(fmt.Sprintf("chain:%x", h[:4]))

	// identifiers embed the slot and the index
	slot, idx := ru32(t.R), ru16(t.R)
	data := rbytes(t.R, t.R.Intn(80))
	hd := blake(data)
	for _, x := range []struct {
		name string
		id   [36]byte
		slot iotago.SlotIndex
		idnt iotago.Identifier
	}{
		{"block", iotago.BlockIDRepresentingData(iotago.SlotIndex(slot), data), iotago.BlockIDRepresentingData(iotago.SlotIndex(slot), data).Slot(), iotago.BlockIDRepresentingData(iotago.SlotIndex(slot), data).Identifier()},
		{"commitment", iotago.CommitmentIDRepresentingData(iotago.SlotIndex(slot), data), iotago.CommitmentIDRepresentingData(iotago.SlotIndex(slot), data).Slot(), iotago.CommitmentIDRepresentingData(iotago.SlotIndex(slot), data).Identifier()},
		{"transaction", iotago.TransactionIDRepresentingData(iotago.SlotIndex(slot), data), iotago.TransactionIDRepresentingData(iotago.SlotIndex(slot), data).Slot(), iotago.TransactionIDRepresentingData(iotago.SlotIndex(slot), data).Identifier()},
		{"signed-transaction", iotago.SignedTransactionIDRepresentingData(iotago.SlotIndex(slot), data), iotago.SignedTransactionIDRepresentingData(iotago.SlotIndex(slot), data).Slot(), iotago.SignedTransactionIDRepresentingData(iotago.SlotIndex(slot), data).Identifier()},
	} {
		t.Check(x.id == slotID(hd, slot) && uint32(x.slot) == slot && x.idnt == hd, "slot-id:"+x.name, "%x slot %d, want %x", x.id, x.slot, slotID(hd, slot))
	}
	t.Check(iotago.IdentifierFromData(data) == hd && [32]byte(iotago.AccountIDFromData(data)) == hd && [32]byte(iotago.AnchorIDFromData(data)) == hd, "identifier-from-data", "differs")
	o := iotago.EmptyOutputIDWithCreationSlot(iotago.SlotIndex(slot))
	t.Check(uint32(o.CreationSlot()) == slot && o.Index() == 0, "empty-output-id", "%x", o)
	txid := iotago.TransactionID(slotID(hd, slot))
	t.Check(iotago.OutputIDFromTransactionIDAndIndex(txid, idx) == refOutputID(txid, idx), "output-id", "differs")
}
