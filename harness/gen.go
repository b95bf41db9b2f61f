package main

import (
	"bytes"
	"crypto/ed25519"
	"math"
	"math/big"
	"math/rand"
	"sort"
	"sync"
	"time"

	"golang.org/x/crypto/blake2b"

	iotago "github.com/iotaledger/iota.go/v4"
)

// World is an API with its protocol parameters.
type World struct {
	Name string
	API  iotago.API
	PP   *iotago.V3ProtocolParameters
}

var (
	worldsOnce sync.Once
	worldList  []*World
)

func newParams(name string, genesisSlot iotago.SlotIndex, genesisTime int64, slotDuration uint8, exp uint8, minCA, maxCA, nearing iotago.SlotIndex, storageCost iotago.BaseToken, version iotago.Version) *iotago.V3ProtocolParameters {
	return iotago.NewV3SnapshotProtocolParameters(
		iotago.WithVersion(version),
		iotago.WithNetworkOptions(name, iotago.PrefixTestnet),
		iotago.WithTimeProviderOptions(genesisSlot, genesisTime, slotDuration, exp),
		iotago.WithLivenessOptions(uint16(minCA)*uint16(slotDuration)/4, uint16(minCA)*uint16(slotDuration)/2, minCA, maxCA, nearing),
		iotago.WithStorageOptions(storageCost, 1, 10, 100, 100, 100),
	)
}

// worlds returns the API instances the workloads run against. All of them are deterministic.
func worlds() []*World {
	worldsOnce.Do(func() {
		for _, w := range []struct {
			name string
			pp   *iotago.V3ProtocolParameters
		}{
			{"default", newParams("testnet", 0, 1_700_000_000, 10, 13, 10, 20, 60, 100, 3)},
			{"genesis-slot", newParams("verif-net", 65898, 1_690_000_000, 10, 8, 5, 11, 24, 10, 3)},
			{"short-epochs", iotago.NewV3SnapshotProtocolParameters(
				iotago.WithNetworkOptions("short", iotago.PrefixShimmer),
				iotago.WithTimeProviderOptions(7, 1_600_000_000, 20, 5),
				iotago.WithLivenessOptions(10, 15, 2, 4, 9),
				iotago.WithStorageOptions(1, 3, 7, 50, 60, 70),
				iotago.WithStakingOptions(3, 5, 4),
				iotago.WithWorkScoreOptions(1, 100, 20, 30, 40, 50, 60, 70, 80, 90),
			)},
		} {
			worldList = append(worldList, &World{w.name, iotago.V3API(w.pp), w.pp})
		}
	})

	return worldList
}

func pickWorld(r *rand.Rand) *World { ws := worlds(); return ws[r.Intn(len(ws))] }

// ---- primitive values ----

func rbytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	_, _ = r.Read(b)

	return b
}

func r32(r *rand.Rand) (out [32]byte) {
	_, _ = r.Read(out[:])
	if r.Intn(12) == 0 {
		// nearly equal values stress the ordering comparisons
		out = [32]byte{}
		out[r.Intn(32)] = byte(r.Intn(3))
		out[31] = byte(r.Intn(4))
	}

	return out
}

func ru64(r *rand.Rand) uint64 {
	switch r.Intn(8) {
	case 0:
		return 0
	case 1:
		return math.MaxUint64 - uint64(r.Intn(3))
	case 2:
		return uint64(1) << uint(r.Intn(64))
	case 3:
		return uint64(r.Intn(300))
	default:
		return r.Uint64() >> uint(r.Intn(64))
	}
}

func ru32(r *rand.Rand) uint32 {
	switch r.Intn(8) {
	case 0:
		return 0
	case 1:
		return math.MaxUint32 - uint32(r.Intn(3))
	default:
		return r.Uint32() >> uint(r.Intn(32))
	}
}

func ru16(r *rand.Rand) uint16 { return uint16(ru32(r)) }

func rbig(r *rand.Rand) *big.Int {
	switch r.Intn(6) {
	case 0:
		return big.NewInt(0)
	case 1:
		return new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(int64(1+r.Intn(3))))
	case 2:
		return new(big.Int).Lsh(big.NewInt(1), uint(r.Intn(256)))
	default:
		return new(big.Int).SetBytes(rbytes(r, r.Intn(33)))
	}
}

func coin(r *rand.Rand, oneIn int) bool { return r.Intn(oneIn) == 0 }

func rascii(r *rand.Rand, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(33 + r.Intn(94))
	}

	return string(b)
}

// rlen is a length biased to its bounds.
func rlen(r *rand.Rand, lo, hi int) int {
	switch r.Intn(10) {
	case 0:
		return lo
	case 1:
		return hi
	default:
		n := lo + int(math.Abs(r.NormFloat64())*float64(hi-lo)/6)
		if n > hi {
			return hi
		}

		return n
	}
}

// ---- keys ----

type keyPair struct {
	Priv ed25519.PrivateKey
	Pub  ed25519.PublicKey
}

var keyPool = func() []keyPair {
	ks := make([]keyPair, 48)
	for i := range ks {
		seed := blake2b.Sum256([]byte{'k', byte(i)})
		ks[i].Priv = ed25519.NewKeyFromSeed(seed[:])
		ks[i].Pub = ks[i].Priv.Public().(ed25519.PublicKey)
	}

	return ks
}()

func (k keyPair) hash() [32]byte { return blake2b.Sum256(k.Pub) }
func (k keyPair) ed() *iotago.Ed25519Address {
	a := iotago.Ed25519Address(k.hash())

	return &a
}
func (k keyPair) implicit() *iotago.ImplicitAccountCreationAddress {
	a := iotago.ImplicitAccountCreationAddress(k.hash())

	return &a
}
func (k keyPair) sign(msg []byte) *iotago.Ed25519Signature {
	s := &iotago.Ed25519Signature{}
	copy(s.PublicKey[:], k.Pub)
	copy(s.Signature[:], ed25519.Sign(k.Priv, msg))

	return s
}

// ---- addresses ----

func genDirectAddr(r *rand.Rand) iotago.Address {
	switch r.Intn(4) {
	case 0:
		a := iotago.Ed25519Address(r32(r))

		return &a
	case 1:
		a := iotago.AccountAddress(r32(r))

		return &a
	case 2:
		a := iotago.NFTAddress(r32(r))

		return &a
	default:
		a := iotago.AnchorAddress(r32(r))

		return &a
	}
}

func sortUniqueAddrs(in iotago.AddressesWithWeight) iotago.AddressesWithWeight {
	sort.Slice(in, func(i, j int) bool { return bytes.Compare(refAddr(in[i].Address), refAddr(in[j].Address)) < 0 })
	out := in[:0]
	for i, a := range in {
		if i == 0 || !bytes.Equal(refAddr(out[len(out)-1].Address), refAddr(a.Address)) {
			out = append(out, a)
		}
	}

	return out
}

func genMulti(r *rand.Rand) *iotago.MultiAddress {
	for {
		n := 2 + r.Intn(9)
		var as iotago.AddressesWithWeight
		cum := 0
		for i := 0; i < n; i++ {
			as = append(as, &iotago.AddressWithWeight{Address: genDirectAddr(r), Weight: byte(1 + r.Intn(255))})
		}
		as = sortUniqueAddrs(as)
		if len(as) < 2 {
			continue
		}
		for _, a := range as {
			cum += int(a.Weight)
		}

		return &iotago.MultiAddress{Addresses: as, Threshold: uint16(1 + r.Intn(cum))}
	}
}

func genCaps(r *rand.Rand) iotago.AddressCapabilitiesBitMask {
	switch r.Intn(4) {
	case 0:
		return iotago.AddressCapabilitiesBitMask{}
	case 1:
		return iotago.AddressCapabilitiesBitMask{byte(1 + r.Intn(255))}
	default:
		return iotago.AddressCapabilitiesBitMask{byte(r.Intn(256)), 1}
	}
}

func genRestricted(r *rand.Rand) *iotago.RestrictedAddress {
	var inner iotago.Address = genDirectAddr(r)
	if coin(r, 3) {
		inner = genMulti(r)
	}

	return &iotago.RestrictedAddress{Address: inner, AllowedCapabilities: genCaps(r)}
}

// genAddr generates any address except implicit account creation addresses.
func genAddr(r *rand.Rand) iotago.Address {
	switch r.Intn(8) {
	case 0:
		return genMulti(r)
	case 1:
		return genRestricted(r)
	default:
		return genDirectAddr(r)
	}
}

func genImplicit(r *rand.Rand) *iotago.ImplicitAccountCreationAddress {
	a := iotago.ImplicitAccountCreationAddress(r32(r))

	return &a
}

func genAnyAddr(r *rand.Rand) iotago.Address {
	if coin(r, 8) {
		return genImplicit(r)
	}

	return genAddr(r)
}

// ---- features and unlock conditions ----

func genMetadataEntries[K ~string, V ~[]byte](r *rand.Rand) map[K]V {
	m := map[K]V{}
	n := 1 + r.Intn(4)
	if coin(r, 20) {
		n = 1 + r.Intn(40)
	}
	for i := 0; i < n; i++ {
		m[K(rascii(r, rlen(r, 1, 40)))] = V(rbytes(r, rlen(r, 0, 120)))
	}

	return m
}

func genMetadata(r *rand.Rand) *iotago.MetadataFeature {
	return &iotago.MetadataFeature{Entries: genMetadataEntries[iotago.MetadataFeatureEntriesKey, iotago.MetadataFeatureEntriesValue](r)}
}

func genStateMetadata(r *rand.Rand) *iotago.StateMetadataFeature {
	return &iotago.StateMetadataFeature{Entries: genMetadataEntries[iotago.StateMetadataFeatureEntriesKey, iotago.StateMetadataFeatureEntriesValue](r)}
}

func genFoundryID(r *rand.Rand) (id iotago.FoundryID) {
	id[0] = byte(iotago.AddressAccount)
	copy(id[1:33], rbytes(r, 32))
	copy(id[33:37], rbytes(r, 4))

	return id
}

func genBIKey(r *rand.Rand) iotago.BlockIssuerKey {
	return &iotago.Ed25519PublicKeyHashBlockIssuerKey{PublicKeyHash: r32(r)}
}

func sortBIKeys(keys iotago.BlockIssuerKeys) iotago.BlockIssuerKeys {
	sort.Slice(keys, func(i, j int) bool { return bytes.Compare(refBIKey(keys[i]), refBIKey(keys[j])) < 0 })
	out := keys[:0]
	for i, k := range keys {
		if i == 0 || !bytes.Equal(refBIKey(out[len(out)-1]), refBIKey(k)) {
			out = append(out, k)
		}
	}

	return out
}

func genBlockIssuer(r *rand.Rand) *iotago.BlockIssuerFeature {
	n := 1 + r.Intn(4)
	if coin(r, 25) {
		n = 1 + r.Intn(iotago.MaxBlockIssuerKeysCount)
	}
	var ks iotago.BlockIssuerKeys
	for i := 0; i < n; i++ {
		ks = append(ks, genBIKey(r))
	}

	return &iotago.BlockIssuerFeature{ExpirySlot: iotago.SlotIndex(ru32(r)), BlockIssuerKeys: sortBIKeys(ks)}
}

func genStaking(r *rand.Rand) *iotago.StakingFeature {
	return &iotago.StakingFeature{StakedAmount: iotago.BaseToken(ru64(r)), FixedCost: iotago.Mana(ru64(r)), StartEpoch: iotago.EpochIndex(ru32(r)), EndEpoch: iotago.EpochIndex(ru32(r))}
}

func genSDR(r *rand.Rand) *iotago.StorageDepositReturnUnlockCondition {
	return &iotago.StorageDepositReturnUnlockCondition{ReturnAddress: genAddr(r), Amount: iotago.BaseToken(ru64(r))}
}

func genTag(r *rand.Rand) *iotago.TagFeature {
	return &iotago.TagFeature{Tag: rbytes(r, rlen(r, 1, 64))}
}

func genOutputType(r *rand.Rand, typ iotago.OutputType) iotago.TxEssenceOutput {
	amount, mana := iotago.BaseToken(ru64(r)), iotago.Mana(ru64(r))
	switch typ {
	case iotago.OutputBasic:
		o := &iotago.BasicOutput{Amount: amount, Mana: mana}
		o.UnlockConditions = iotago.BasicOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: genAnyAddr(r)}}
		if coin(r, 3) {
			o.UnlockConditions = append(o.UnlockConditions, genSDR(r))
		}
		if coin(r, 3) {
			o.UnlockConditions = append(o.UnlockConditions, &iotago.TimelockUnlockCondition{Slot: iotago.SlotIndex(ru32(r))})
		}
		if coin(r, 3) {
			o.UnlockConditions = append(o.UnlockConditions, &iotago.ExpirationUnlockCondition{ReturnAddress: genAddr(r), Slot: iotago.SlotIndex(ru32(r))})
		}
		o.Features = iotago.BasicOutputFeatures{}
		if coin(r, 3) {
			o.Features = append(o.Features, &iotago.SenderFeature{Address: genAnyAddr(r)})
		}
		if coin(r, 3) {
			o.Features = append(o.Features, genMetadata(r))
		}
		if coin(r, 3) {
			o.Features = append(o.Features, genTag(r))
		}
		if coin(r, 3) {
			o.Features = append(o.Features, &iotago.NativeTokenFeature{ID: genFoundryID(r), Amount: rbig(r)})
		}

		return o
	case iotago.OutputAccount:
		o := &iotago.AccountOutput{Amount: amount, Mana: mana, AccountID: r32(r), FoundryCounter: ru32(r)}
		o.UnlockConditions = iotago.AccountOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: genAnyAddr(r)}}
		o.Features = iotago.AccountOutputFeatures{}
		o.ImmutableFeatures = iotago.AccountOutputImmFeatures{}
		if coin(r, 3) {
			o.Features = append(o.Features, &iotago.SenderFeature{Address: genAnyAddr(r)})
		}
		if coin(r, 3) {
			o.Features = append(o.Features, genMetadata(r))
		}
		if coin(r, 3) {
			o.Features = append(o.Features, genBlockIssuer(r))
		}
		if coin(r, 3) {
			o.Features = append(o.Features, genStaking(r))
		}
		if coin(r, 3) {
			o.ImmutableFeatures = append(o.ImmutableFeatures, &iotago.IssuerFeature{Address: genAnyAddr(r)})
		}
		if coin(r, 3) {
			o.ImmutableFeatures = append(o.ImmutableFeatures, genMetadata(r))
		}

		return o
	case iotago.OutputAnchor:
		o := &iotago.AnchorOutput{Amount: amount, Mana: mana, AnchorID: r32(r), StateIndex: ru32(r)}
		o.UnlockConditions = iotago.AnchorOutputUnlockConditions{
			&iotago.StateControllerAddressUnlockCondition{Address: genAddr(r)},
			&iotago.GovernorAddressUnlockCondition{Address: genAddr(r)},
		}
		o.Features = iotago.AnchorOutputFeatures{}
		o.ImmutableFeatures = iotago.AnchorOutputImmFeatures{}
		if coin(r, 2) {
			o.Features = append(o.Features, genMetadata(r))
		}
		if coin(r, 2) {
			o.Features = append(o.Features, genStateMetadata(r))
		}
		if coin(r, 3) {
			o.ImmutableFeatures = append(o.ImmutableFeatures, &iotago.IssuerFeature{Address: genAnyAddr(r)})
		}
		if coin(r, 3) {
			o.ImmutableFeatures = append(o.ImmutableFeatures, genMetadata(r))
		}

		return o
	case iotago.OutputFoundry:
		acc := iotago.AccountAddress(r32(r))
		o := &iotago.FoundryOutput{Amount: amount, SerialNumber: ru32(r), TokenScheme: &iotago.SimpleTokenScheme{MintedTokens: rbig(r), MeltedTokens: rbig(r), MaximumSupply: rbig(r)}}
		o.UnlockConditions = iotago.FoundryOutputUnlockConditions{&iotago.ImmutableAccountUnlockCondition{Address: &acc}}
		o.Features = iotago.FoundryOutputFeatures{}
		o.ImmutableFeatures = iotago.FoundryOutputImmFeatures{}
		if coin(r, 2) {
			o.Features = append(o.Features, genMetadata(r))
		}
		if coin(r, 2) {
			o.Features = append(o.Features, &iotago.NativeTokenFeature{ID: genFoundryID(r), Amount: rbig(r)})
		}
		if coin(r, 3) {
			o.ImmutableFeatures = append(o.ImmutableFeatures, genMetadata(r))
		}

		return o
	case iotago.OutputNFT:
		o := &iotago.NFTOutput{Amount: amount, Mana: mana, NFTID: r32(r)}
		o.UnlockConditions = iotago.NFTOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: genAnyAddr(r)}}
		if coin(r, 3) {
			o.UnlockConditions = append(o.UnlockConditions, genSDR(r))
		}
		if coin(r, 3) {
			o.UnlockConditions = append(o.UnlockConditions, &iotago.TimelockUnlockCondition{Slot: iotago.SlotIndex(ru32(r))})
		}
		if coin(r, 3) {
			o.UnlockConditions = append(o.UnlockConditions, &iotago.ExpirationUnlockCondition{ReturnAddress: genAddr(r), Slot: iotago.SlotIndex(ru32(r))})
		}
		o.Features = iotago.NFTOutputFeatures{}
		o.ImmutableFeatures = iotago.NFTOutputImmFeatures{}
		if coin(r, 3) {
			o.Features = append(o.Features, &iotago.SenderFeature{Address: genAnyAddr(r)})
		}
		if coin(r, 3) {
			o.Features = append(o.Features, genMetadata(r))
		}
		if coin(r, 3) {
			o.Features = append(o.Features, genTag(r))
		}
		if coin(r, 3) {
			o.ImmutableFeatures = append(o.ImmutableFeatures, &iotago.IssuerFeature{Address: genAnyAddr(r)})
		}
		if coin(r, 3) {
			o.ImmutableFeatures = append(o.ImmutableFeatures, genMetadata(r))
		}

		return o
	default:
		val := iotago.AccountAddress(r32(r))
		o := &iotago.DelegationOutput{Amount: amount, DelegatedAmount: iotago.BaseToken(ru64(r)), DelegationID: r32(r), ValidatorAddress: &val, StartEpoch: iotago.EpochIndex(ru32(r)), EndEpoch: iotago.EpochIndex(ru32(r))}
		o.UnlockConditions = iotago.DelegationOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: genAnyAddr(r)}}

		return o
	}
}

var allOutputTypes = []iotago.OutputType{iotago.OutputBasic, iotago.OutputAccount, iotago.OutputAnchor, iotago.OutputFoundry, iotago.OutputNFT, iotago.OutputDelegation}

// genOutput generates a well-formed (not necessarily syntactically valid) output.
func genOutput(r *rand.Rand) iotago.TxEssenceOutput {
	return genOutputType(r, allOutputTypes[r.Intn(len(allOutputTypes))])
}

// ---- IDs ----

func genSlotID(r *rand.Rand) (out [36]byte) { _, _ = r.Read(out[:]); return out }

func genOutputID(r *rand.Rand) (id iotago.OutputID) {
	copy(id[:36], rbytes(r, 36))
	id[36] = byte(r.Intn(128))

	return id
}

func genBlockIDs(r *rand.Rand, lo, hi int) iotago.BlockIDs {
	n := lo + r.Intn(hi-lo+1)
	ids := iotago.BlockIDs{}
	for i := 0; i < n; i++ {
		ids = append(ids, genSlotID(r))
	}
	sort.Slice(ids, func(i, j int) bool { return bytes.Compare(ids[i][:], ids[j][:]) < 0 })

	return ids
}

// ---- transactions ----

func genTaggedData(r *rand.Rand) *iotago.TaggedData {
	return &iotago.TaggedData{Tag: rbytes(r, rlen(r, 0, 64)), Data: rbytes(r, rlen(r, 0, 400))}
}

func genContextInputs(r *rand.Rand) iotago.TxEssenceContextInputs {
	cis := iotago.TxEssenceContextInputs{}
	if coin(r, 2) {
		cis = append(cis, &iotago.CommitmentInput{CommitmentID: genSlotID(r)})
	}
	var bics [][]byte
	for i := r.Intn(4); i > 0; i-- {
		x := r32(r)
		bics = append(bics, x[:])
	}
	bics = sortUniqueBytes(bics)
	for _, b := range bics {
		cis = append(cis, &iotago.BlockIssuanceCreditInput{AccountID: iotago.AccountID(b)})
	}
	var rew []int
	for i := r.Intn(4); i > 0; i-- {
		rew = append(rew, r.Intn(128))
	}
	sort.Ints(rew)
	for i, x := range rew {
		if i == 0 || rew[i-1] != x {
			cis = append(cis, &iotago.RewardInput{Index: uint16(x)})
		}
	}

	return cis
}

func sortUniqueBytes(in [][]byte) (out [][]byte) {
	sort.Slice(in, func(i, j int) bool { return bytes.Compare(in[i], in[j]) < 0 })
	for i, b := range in {
		if i == 0 || !bytes.Equal(in[i-1], b) {
			out = append(out, b)
		}
	}

	return out
}

func genAllotments(r *rand.Rand, max int) iotago.Allotments {
	al := iotago.Allotments{}
	var ids [][]byte
	for i := r.Intn(max + 1); i > 0; i-- {
		x := r32(r)
		ids = append(ids, x[:])
	}
	for _, id := range sortUniqueBytes(ids) {
		al = append(al, &iotago.Allotment{AccountID: iotago.AccountID(id), Mana: iotago.Mana(ru64(r))})
	}

	return al
}

func genTxCaps(r *rand.Rand) iotago.TransactionCapabilitiesBitMask {
	if coin(r, 3) {
		return iotago.TransactionCapabilitiesBitMask{}
	}

	return iotago.TransactionCapabilitiesBitMask{byte(1 + r.Intn(63))}
}

// genTx generates a well-formed transaction which is serializable but not necessarily syntactically valid.
func genTx(r *rand.Rand, w *World) *iotago.Transaction {
	tx := &iotago.Transaction{API: w.API, TransactionEssence: &iotago.TransactionEssence{
		NetworkID: ru64(r), CreationSlot: iotago.SlotIndex(ru32(r)),
		ContextInputs: genContextInputs(r), Allotments: genAllotments(r, 4), Capabilities: genTxCaps(r),
	}}
	n := rlen(r, 1, 12)
	if coin(r, 30) {
		n = 128
	}
	for i := 0; i < n; i++ {
		id := genOutputID(r)
		tx.TransactionEssence.Inputs = append(tx.TransactionEssence.Inputs, &iotago.UTXOInput{TransactionID: iotago.TransactionID(id[:36]), TransactionOutputIndex: uint16(r.Intn(128))})
	}
	if coin(r, 2) {
		tx.TransactionEssence.Payload = genTaggedData(r)
	}
	n = rlen(r, 1, 8)
	for i := 0; i < n; i++ {
		tx.Outputs = append(tx.Outputs, genOutput(r))
	}

	return tx
}

func genSignature(r *rand.Rand) *iotago.Ed25519Signature {
	s := &iotago.Ed25519Signature{}
	_, _ = r.Read(s.PublicKey[:])
	_, _ = r.Read(s.Signature[:])

	return s
}

func genUnlock(r *rand.Rand, inMulti bool) iotago.Unlock {
	switch r.Intn(7) {
	case 0, 1:
		return &iotago.SignatureUnlock{Signature: genSignature(r)}
	case 2:
		return &iotago.ReferenceUnlock{Reference: uint16(r.Intn(128))}
	case 3:
		return &iotago.AccountUnlock{Reference: uint16(r.Intn(128))}
	case 4:
		return &iotago.AnchorUnlock{Reference: uint16(r.Intn(128))}
	case 5:
		return &iotago.NFTUnlock{Reference: uint16(r.Intn(128))}
	default:
		if inMulti {
			return &iotago.EmptyUnlock{}
		}
		m := &iotago.MultiUnlock{}
		for i := 2 + r.Intn(9); i > 0; i-- {
			m.Unlocks = append(m.Unlocks, genUnlock(r, true))
		}

		return m
	}
}

func genSignedTx(r *rand.Rand, w *World) *iotago.SignedTransaction {
	tx := &iotago.SignedTransaction{API: w.API, Transaction: genTx(r, w)}
	for range tx.Transaction.TransactionEssence.Inputs {
		tx.Unlocks = append(tx.Unlocks, genUnlock(r, false))
	}

	return tx
}

// ---- blocks ----

func genHeader(r *rand.Rand, w *World) iotago.BlockHeader {
	return iotago.BlockHeader{
		ProtocolVersion: w.API.Version(), NetworkID: w.PP.NetworkID(),
		IssuingTime:         genIssuingTime(r, w),
		SlotCommitmentID:    genSlotID(r),
		LatestFinalizedSlot: iotago.SlotIndex(ru32(r)),
		IssuerID:            r32(r),
	}
}

func genIssuingTime(r *rand.Rand, w *World) time.Time {
	return time.Unix(w.PP.GenesisUnixTimestamp()+r.Int63n(1_000_000_00), r.Int63n(1_000_000_000)).UTC()
}

func genBlock(r *rand.Rand, w *World) *iotago.Block {
	b := &iotago.Block{API: w.API, Header: genHeader(r, w), Signature: genSignature(r)}
	if coin(r, 3) {
		body := &iotago.ValidationBlockBody{API: w.API, HighestSupportedVersion: iotago.Version(r.Intn(256)), ProtocolParametersHash: r32(r)}
		body.StrongParents, body.WeakParents, body.ShallowLikeParents = genBlockIDs(r, 1, 50), genBlockIDs(r, 0, 8), genBlockIDs(r, 0, 8)
		b.Body = body

		return b
	}
	body := &iotago.BasicBlockBody{API: w.API, MaxBurnedMana: iotago.Mana(ru64(r))}
	body.StrongParents, body.WeakParents, body.ShallowLikeParents = genBlockIDs(r, 1, 8), genBlockIDs(r, 0, 8), genBlockIDs(r, 0, 8)
	switch r.Intn(4) {
	case 0:
		body.Payload = genTaggedData(r)
	case 1:
		body.Payload = genSignedTx(r, w)
	case 2:
		body.Payload = &iotago.CandidacyAnnouncement{}
	}
	b.Body = body

	return b
}

func genCommitment(r *rand.Rand) *iotago.Commitment {
	return &iotago.Commitment{ProtocolVersion: iotago.Version(r.Intn(256)), Slot: iotago.SlotIndex(ru32(r)), PreviousCommitmentID: genSlotID(r), RootsID: r32(r), CumulativeWeight: ru64(r), ReferenceManaCost: iotago.Mana(ru64(r))}
}

func genRoots(r *rand.Rand) *iotago.Roots {
	return &iotago.Roots{TangleRoot: r32(r), StateMutationRoot: r32(r), StateRoot: r32(r), AccountRoot: r32(r), AttestationsRoot: r32(r), CommitteeRoot: r32(r), RewardsRoot: r32(r), ProtocolParametersHash: r32(r)}
}

func genAttestation(r *rand.Rand, w *World) *iotago.Attestation {
	return &iotago.Attestation{API: w.API, Header: genHeader(r, w), BodyHash: r32(r), Signature: genSignature(r)}
}
