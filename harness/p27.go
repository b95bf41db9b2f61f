package main

import (
	"bytes"
	"crypto/ed25519"
	"crypto/hmac"
	"crypto/sha512"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"math/rand"
	"strings"

	"github.com/iotaledger/iota-crypto-demo/pkg/bip39"

	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/wallet"
)

// P27: key manager, accounts and address signers.

// refSlip10 derives the ed25519 seed of a path as SLIP-10 says.
func refSlip10(seed []byte, path []uint32) []byte {
	mac := func(key, data []byte) []byte {
		h := hmac.New(sha512.New, key)
		h.Write(data)

		return h.Sum(nil)
	}
	i := mac([]byte("ed25519 seed"), seed)
	for _, p := range path {
		i = mac(i[32:], append(append([]byte{0}, i[:32]...), binary.BigEndian.AppendUint32(nil, p)...))
	}

	return i[:32]
}

// refBIP39Seed is PBKDF2-HMAC-SHA512 of the sentence with 2048 rounds and no passphrase.
func refBIP39Seed(sentence string) []byte {
	h := hmac.New(sha512.New, []byte(sentence))
	h.Write([]byte("mnemonic\x00\x00\x00\x01"))
	u := h.Sum(nil)
	out := append([]byte{}, u...)
	for i := 1; i < 2048; i++ {
		h.Reset()
		h.Write(u)
		u = h.Sum(u[:0])
		for j := range out {
			out[j] ^= u[j]
		}
	}

	return out
}

func genHDPath(r *rand.Rand, min int) (s string, path []uint32) {
	s = "m"
	for n := min + r.Intn(3); n > 0; n-- {
		v := uint32(r.Intn(1 << 31))
		if coin(r, 2) {
			v = uint32(r.Intn(5))
		}
		path = append(path, v|1<<31)
		s += fmt.Sprintf("/%d%s", v, []string{"'", "H"}[r.Intn(2)])
	}

	return s, path
}

func init() {
	register("P27", func(c *Ctx) {
		c.Rule("keys: key managers from seeds, mnemonics and random entropy; every key pair is compared with an independent SLIP-10/BIP-39 derivation, addresses with the key's hash, signatures are verified with the standard library, the mnemonic must restore the same keys")
		c.Rule("signer: address signers over random sets of keys and address kinds; they sign for exactly the addresses whose keys they hold, restricted or not, and give the documented errors for others")
		c.Rule("account: accounts from hex strings, mutated")
		c.Assume("Paths are hardened (SLIP-10 defines no other derivation for ed25519); indexes below 2^31")
		c.Assume("A key manager made of a raw seed has no mnemonic it was derived from; what Mnemonic returns for it is not judged")

		c.Run("keys", c.N(5000, 100000), func(t *Case) {
			r := t.R
			min := 5
			if coin(r, 5) {
				min = 0
			}
			ps, path := genHDPath(r, min)
			if coin(r, 3) {
				ps, path = wallet.DefaultIOTAPath, []uint32{44 | 1<<31, 4218 | 1<<31, 1 << 31, 1 << 31, 1 << 31}
				if coin(r, 2) {
					ps, path = wallet.DefaultShimmerPath, []uint32{44 | 1<<31, 4219 | 1<<31, 1 << 31, 1 << 31, 1 << 31}
				}
			}
			var km *wallet.KeyManager
			var err error
			var seed []byte
			how := []string{"seed", "mnemonic", "random"}[r.Intn(3)]
			switch how {
			case "seed":
				seed = rbytes(r, 16+r.Intn(49))
				km, err = wallet.NewKeyManager(append([]byte{}, seed...), ps)
			case "mnemonic":
				entropy := rbytes(r, 32)
				for i := r.Intn(3); i > 0 && coin(r, 10); i-- {
					entropy[i-1] = 0
				}
				m, merr := bip39.EntropyToMnemonic(entropy)
				if merr != nil {
					panic(merr)
				}
				if len(m) != 24 {
					panic("24 words expected")
				}
				seed = refBIP39Seed(strings.Join(m, " "))
				given := strings.Join(m, " ")
				if coin(r, 3) {
					given = " " + strings.ToUpper(strings.Join(m, "  ")) + "\n"
					if bip39.ParseMnemonic(given).String() != strings.Join(m, " ") {
						given = strings.Join(m, " ")
					}
				}
				km, err = wallet.NewKeyManagerFromMnemonic(given, ps)
				if entropy[0] == 0 && err != nil {
					t.Violate("keys:refused:entropy-with-leading-zero", "a valid mnemonic whose entropy starts with a zero byte is refused: %v", err)

					return
				}
				if t.Check(err == nil, "keys:refused", "%v", err) {
					t.Check(strings.Join(km.Mnemonic(), " ") == strings.Join(m, " "), "keys:mnemonic", "the mnemonic is %q, was made of %q", km.Mnemonic(), m)
				}
			case "random":
				km, err = wallet.NewKeyManagerFromRandom(ps)
				other, _ := wallet.NewKeyManagerFromRandom(ps)
				if err == nil {
					a, _ := km.KeyPair()
					b, _ := other.KeyPair()
					t.Check(!bytes.Equal(a, b), "keys:not-random", "two random key managers have the same key")
				}
			}
			if !t.Check(err == nil, "keys:refused", "%s, path %s: %v", how, ps, err) {
				return
			}
			if how != "seed" { // restore
				m := km.Mnemonic()
				back, err := wallet.NewKeyManagerFromMnemonic(m.String(), ps)
				if t.Check(err == nil, "keys:not-restored", "the mnemonic of a key manager from %s is refused: %v", how, err) {
					a, _ := km.KeyPair()
					b, _ := back.KeyPair()
					t.Check(bytes.Equal(a, b), "keys:not-restored", "the mnemonic of a key manager from %s restores other keys", how)
					t.Count("key managers restored from mnemonics")
				}
				m[0] = "spoiled"
				t.Check(km.Mnemonic()[0] != "spoiled", "keys:mnemonic-shared", "the mnemonic can be changed from outside")
				seed = refBIP39Seed(km.Mnemonic().String())
			}
			var indexes []uint32
			for n := r.Intn(4); n > 0 && len(path) >= 5; n-- {
				i := uint32(r.Intn(1 << 31))
				if coin(r, 2) {
					i = uint32(r.Intn(4))
				}
				indexes = append(indexes, i)
			}
			w := pickWorld(r)
			msg := rbytes(r, r.Intn(100))
			judge := func(idx []uint32, p []uint32) {
				want := ed25519.NewKeyFromSeed(refSlip10(seed, p))
				priv, pub := km.KeyPair(idx...)
				t.Check(bytes.Equal(priv, want) && bytes.Equal(pub, want[32:]), "keys:derivation", "key of index %v on path %s from %s differs from SLIP-10", idx, ps, how)
				got := km.Path(idx...)
				same := len(got) == len(p)
				for i := range p {
					same = same && got[i] == p[i]
				}
				t.Check(same, "keys:path", "the path is %v, expected %v", got, p)
				h := blake(want[32:])
				ea := km.Address(iotago.AddressEd25519, idx...)
				ia := km.Address(iotago.AddressImplicitAccountCreation, idx...)
				t.Check(bytes.Equal(refAddr(ea), append([]byte{0}, h[:]...)) && bytes.Equal(refAddr(ia), append([]byte{32}, h[:]...)), "keys:address", "addresses %s and %s of index %v", ea, ia, idx)
				s := km.AddressSigner(idx...)
				for _, a := range []iotago.Address{ea, ia, iotago.RestrictedAddressWithCapabilities(ea.(*iotago.Ed25519Address))} {
					sig, err := s.Sign(a, msg)
					if !t.Check(err == nil, "keys:signer", "the signer of index %v does not sign for its address %T: %v", idx, a, err) {
						continue
					}
					e := sig.(*iotago.Ed25519Signature)
					t.Check(bytes.Equal(e.PublicKey[:], want[32:]) && ed25519.Verify(want.Public().(ed25519.PublicKey), msg, e.Signature[:]), "keys:signer", "wrong signature")
				}
				t.Count("keys compared")
			}
			judge(nil, path)
			for _, i := range indexes {
				p := append([]uint32{}, path...)
				p[4] = i | 1<<31
				judge([]uint32{i}, p)
			}
			judge(nil, path)
			if len(indexes) > 1 {
				s := km.AddressSigner(indexes...)
				for _, i := range indexes {
					_, err := s.Sign(km.Address(iotago.AddressEd25519, i), msg)
					t.Check(err == nil, "keys:signer", "the signer of indexes %v does not sign for %d: %v", indexes, i, err)
				}
				other := uint32(r.Intn(1 << 31))
				known := false
				for _, i := range indexes {
					known = known || i == other
				}
				if !known {
					_, err := s.Sign(km.Address(iotago.AddressEd25519, other), msg)
					t.Check(errors.Is(err, iotago.ErrAddressKeysNotMapped), "keys:signer-too-many", "the signer of indexes %v signs for %d", indexes, other)
				}
			}
			_ = w
			t.Eval(fmt.Sprintf("keys/%s/%d/%d/%s", how, len(path), len(indexes), ps))
		})

		c.Run("bad-mnemonic", c.N(300, 6000), func(t *Case) {
			r := t.R
			entropy := rbytes(r, 4*(4+r.Intn(13)))
			entropy[0] |= 1
			m, _ := bip39.EntropyToMnemonic(entropy)
			valid := len(m) == 24
			switch r.Intn(4) {
			case 0:
				m[r.Intn(len(m))] = "notaword"
				valid = false
			case 1:
				m = m[:len(m)-1]
				valid = false
			case 2:
				m = append(m, m[0])
				valid = false
			}
			_, err := wallet.NewKeyManagerFromMnemonic(m.String(), wallet.DefaultIOTAPath)
			t.Check((err == nil) == valid, "keys:mnemonic-verdict", "a sentence of %d words: %v, valid: %v", len(m), err, valid)
			t.Eval(fmt.Sprintf("bad-mnemonic/%d/%v/%s", len(m), valid, m[0]))
			t.Count("invalid mnemonics and paths tried")
			_, err = wallet.NewKeyManager(rbytes(r, 32), []string{"m/x", "44//1", "m/2147483648'", "m/44'/", "m/-1"}[r.Intn(5)])
			t.Check(err != nil, "keys:path-accepted", "an invalid path is accepted")
		})

		c.Run("signer", c.N(8000, 200000), func(t *Case) {
			r := t.R
			held := map[string]keyPair{} // by type and hash of the direct address
			var aks []iotago.AddressKeys
			var privs []ed25519.PrivateKey
			plain := coin(r, 2)
			for n := r.Intn(5); n > 0; n-- {
				k := keyPool[r.Intn(6)]
				switch {
				case plain:
					privs = append(privs, k.Priv)
					held[string(refAddr(k.ed()))] = k
					held[string(refAddr(k.implicit()))] = k
				case coin(r, 3):
					aks = append(aks, iotago.NewAddressKeysForImplicitAccountCreationAddress(k.implicit(), k.Priv))
					held[string(refAddr(k.implicit()))] = k
				case coin(r, 2):
					ak, err := iotago.NewAddressKeysForRestrictedEd25519Address(&iotago.RestrictedAddress{Address: k.ed(), AllowedCapabilities: genCaps(r)}, k.Priv)
					if !t.Check(err == nil, "signer:restricted", "%v", err) {
						return
					}
					aks = append(aks, ak)
					held[string(refAddr(k.ed()))] = k
				default:
					aks = append(aks, iotago.NewAddressKeysForEd25519Address(k.ed(), k.Priv))
					held[string(refAddr(k.ed()))] = k
				}
			}
			wrong := !plain && coin(r, 10)
			var wrongAddr iotago.Address
			if wrong {
				k := keyPool[r.Intn(6)]
				wrongAddr = k.ed()
				if _, has := held[string(refAddr(wrongAddr))]; has {
					wrong = false
				} else {
					aks = append(aks, iotago.AddressKeys{Address: wrongAddr, Keys: []byte(k.Priv)})
				}
			}
			var s iotago.AddressSigner
			if plain {
				s = iotago.NewInMemoryAddressSignerFromEd25519PrivateKeys(privs...)
			} else {
				s = iotago.NewInMemoryAddressSigner(aks...)
			}
			msg := rbytes(r, r.Intn(200))
			for n := 0; n < 6; n++ {
				k := keyPool[r.Intn(6)]
				var addr, direct iotago.Address
				switch r.Intn(3) {
				case 0:
					addr, direct = k.ed(), k.ed()
				case 1:
					addr, direct = k.implicit(), k.implicit()
				case 2:
					addr, direct = &iotago.RestrictedAddress{Address: k.ed(), AllowedCapabilities: genCaps(r)}, k.ed()
				}
				_, has := held[string(refAddr(direct))]
				isWrong := wrong && bytes.Equal(refAddr(direct), refAddr(wrongAddr))
				sig, err := s.Sign(addr, msg)
				uid, uerr := s.SignerUIDForAddress(addr)
				empty, eerr := s.EmptySignatureForAddress(addr)
				t.Eval(fmt.Sprintf("signer/%v/%T/%v/%v", plain, addr, has, isWrong))
				if t.Check(eerr == nil, "signer:empty", "%v", eerr) {
					t.Check(bytes.Equal(refSig(empty), refSig(&iotago.Ed25519Signature{})), "signer:empty", "the empty signature is not empty")
				}
				switch {
				case isWrong:
					t.Check(errors.Is(err, iotago.ErrAddressKeysWrongType) && errors.Is(uerr, iotago.ErrAddressKeysWrongType), "signer:wrong-type", "%v, %v", err, uerr)
				case !has:
					t.Check(errors.Is(err, iotago.ErrAddressKeysNotMapped) && errors.Is(uerr, iotago.ErrAddressKeysNotMapped), "signer:not-mapped", "an address without key: %v, %v", err, uerr)
					t.Count("addresses without keys tried")
				default:
					if !t.Check(err == nil && uerr == nil, "signer:refused", "%T: %v, %v", addr, err, uerr) {
						continue
					}
					e, is := sig.(*iotago.Ed25519Signature)
					t.Check(is && bytes.Equal(e.PublicKey[:], k.Pub) && ed25519.Verify(k.Pub, msg, e.Signature[:]), "signer:signature", "wrong signature for %T", addr)
					t.Check(uid == iotago.Identifier(blake(k.Pub)), "signer:uid", "the UID of the signer is not the hash of its public key")
					// the signature unlocks the address
					switch a := direct.(type) {
					case *iotago.Ed25519Address:
						t.Check(a.Unlock(msg, sig) == nil, "signer:unlock", "the signature does not unlock the address: %v", a.Unlock(msg, sig))
					case *iotago.ImplicitAccountCreationAddress:
						t.Check(a.Unlock(msg, sig) == nil, "signer:unlock", "the signature does not unlock the address: %v", a.Unlock(msg, sig))
					}
					t.Count("signatures verified")
				}
			}
		})

		c.Run("account", c.N(2000, 40000), func(t *Case) {
			r := t.R
			k := keyPool[r.Intn(len(keyPool))]
			id := r32(r)
			ih, kh := "0x"+hex.EncodeToString(id[:]), hex.EncodeToString(k.Priv)
			bad := ""
			switch r.Intn(8) {
			case 0:
				ih, bad = ih[:len(ih)-2], "short ID"
			case 1:
				ih, bad = ih+"00", "long ID"
			case 2:
				ih, bad = ih[2:], "ID without prefix"
			case 3:
				kh, bad = kh[:len(kh)-2], "short key"
			case 4:
				kh, bad = "g"+kh[1:], "key which is not hex"
			}
			a, err := wallet.AccountFromParams(ih, kh)
			t.Eval("account/" + bad + "/" + ih)
			if bad != "" {
				t.Check(err != nil, "account:accepted", "%s is accepted", bad)

				return
			}
			if !t.Check(err == nil, "account:refused", "%v", err) {
				return
			}
			for _, a := range []wallet.Account{a, wallet.NewEd25519Account(id, k.Priv)} {
				t.Check(a.ID() == iotago.AccountID(id) && bytes.Equal(refAddr(a.Address()), append([]byte{8}, id[:]...)), "account:id", "ID %s, address %s", a.ID(), a.Address())
				t.Check(bytes.Equal(refAddr(a.OwnerAddress()), refAddr(k.ed())) && bytes.Equal(a.PrivateKey(), k.Priv), "account:owner", "owner %s", a.OwnerAddress())
			}
			t.Count("accounts compared")
		})
	})
}
