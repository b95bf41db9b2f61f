package main

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/iotaledger/hive.go/serializer/v2/serix"
	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/api"
)

// The messages of the node API: a generator, and independent encoders of their JSON and binary forms.

var blockStates = []string{"unknown", "pending", "accepted", "confirmed", "finalized", "dropped", "orphaned"}
var txStates = []string{"unknown", "pending", "accepted", "committed", "finalized", "failed"}

var (
	commitmentType = reflect.TypeOf((*iotago.Commitment)(nil))
	proofType      = reflect.TypeOf((*iotago.OutputIDProof)(nil))
	blockPtrType   = reflect.TypeOf((*iotago.Block)(nil))
	outputType     = reflect.TypeOf((*iotago.TxEssenceOutput)(nil)).Elem()
	paramsType     = reflect.TypeOf((*iotago.ProtocolParameters)(nil)).Elem()
	hexOutputType  = reflect.TypeOf(iotago.HexOutputID(""))
	blockStateType = reflect.TypeOf(api.BlockState(0))
	txStateType    = reflect.TypeOf(api.TransactionState(0))
)

// apiOmit lists the members which are left out of the JSON form when they are empty.
var apiOmit = map[string]bool{
	"InfoResBaseToken.Subunit": true, "IssuanceBlockHeaderResponse.WeakParents": true, "IssuanceBlockHeaderResponse.ShallowLikeParents": true,
	"TransactionMetadataResponse.TransactionFailureReason": true, "TransactionMetadataResponse.TransactionFailureDetails": true,
	"OutputInclusionMetadata.CommitmentID": true, "OutputConsumptionMetadata.CommitmentID": true, "OutputMetadata.Spent": true,
	"ValidatorsResponse.Cursor": true, "IndexerResponse.Cursor": true, "AddPeerRequest.Alias": true, "PeerInfo.Alias": true,
	"PruneDatabaseRequest.Epoch": true, "PruneDatabaseRequest.Depth": true, "PruneDatabaseRequest.TargetDatabaseSize": true,
}

// apiLen gives the size of the length prefix of strings and lists where it is not one byte.
var apiLen = map[string]int{
	"TransactionMetadataResponse.TransactionFailureDetails": 2, "ValidatorsResponse.Validators": 2, "IndexerResponse.Items": 2,
	"UTXOChangesResponse.CreatedOutputs": 4, "UTXOChangesResponse.ConsumedOutputs": 4,
	"UTXOChangesFullResponse.CreatedOutputs": 4, "UTXOChangesFullResponse.ConsumedOutputs": 4,
}

func apiKey(typ, field string) string {
	if field == "AddressBech32" {
		return "address"
	}
	field = strings.ReplaceAll(field, "ID", "Id")

	return strings.ToLower(field[:1]) + field[1:]
}

func zeroValue(v reflect.Value) bool {
	if v.Kind() == reflect.Slice {
		return v.Len() == 0
	}

	return v.IsZero()
}

// genAPITime gives a time which is representable as a number of nanoseconds.
func genAPITime(r *rand.Rand) time.Time {
	if coin(r, 8) {
		return time.Unix(0, []int64{0, 1, 999_999_999, 1_000_000_000, math.MaxInt64}[r.Intn(5)]).UTC()
	}

	return time.Unix(0, r.Int63()).UTC()
}

func genWireText(r *rand.Rand, max int) string {
	n := rlen(r, 0, 12)
	if coin(r, 10) {
		n = max - r.Intn(2)
	}
	s := rascii(r, n)
	if coin(r, 5) {
		s = "ä\"\\\n<\u2028>/" + s
	}
	for len(s) > max {
		s = s[:len(s)-1]
	}

	return strings.ToValidUTF8(s, "")
}

// fillAPI fills the message with random content.
func fillAPI(r *rand.Rand, w *World, v reflect.Value, typ, field string) {
	switch v.Type() {
	case commitmentType:
		c := genCommitment(r)
		c.Slot %= 1 << 30
		v.Set(reflect.ValueOf(c))

		return
	case proofType:
		p, _ := genOutputIDProof(r, w)
		v.Set(reflect.ValueOf(p))

		return
	case blockPtrType:
		v.Set(reflect.ValueOf(genValidBlock(r, w)))

		return
	case outputType:
		v.Set(reflect.ValueOf(genOutput(r)))

		return
	case paramsType:
		v.Set(reflect.ValueOf(iotago.ProtocolParameters(worlds()[r.Intn(3)].PP)))

		return
	case timeType:
		v.Set(reflect.ValueOf(genAPITime(r)))

		return
	case hexOutputType:
		v.SetString(hx(rbytes(r, 38)))

		return
	case blockStateType:
		v.SetUint(uint64(r.Intn(len(blockStates))))

		return
	case txStateType:
		v.SetUint(uint64(r.Intn(len(txStates))))

		return
	}
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if f.IsExported() && !(apiOmit[v.Type().Name()+"."+f.Name] && coin(r, 3)) {
				fillAPI(r, w, v.Field(i), v.Type().Name(), f.Name)
			}
		}
	case reflect.Pointer:
		v.Set(reflect.New(v.Type().Elem()))
		fillAPI(r, w, v.Elem(), typ, field)
	case reflect.String:
		max := 255
		if apiLen[typ+"."+field] == 2 {
			max = 3000
		}
		v.SetString(genWireText(r, max))
	case reflect.Bool:
		v.SetBool(coin(r, 2))
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(ru64(r) & (1<<v.Type().Bits() - 1))
		if coin(r, 8) {
			v.SetUint(1<<v.Type().Bits() - 1)
		}
	case reflect.Int64:
		v.SetInt(int64(ru64(r)))
	case reflect.Float64:
		v.SetFloat([]float64{0, 1, 0.5, r.Float64(), r.NormFloat64() * 1e9, math.SmallestNonzeroFloat64, math.MaxFloat64}[r.Intn(7)])
	case reflect.Array:
		reflect.Copy(v, reflect.ValueOf(rbytes(r, v.Len())))
		if coin(r, 12) {
			v.SetZero()
		}
	case reflect.Slice:
		n := rlen(r, 0, 5)
		v.Set(reflect.MakeSlice(v.Type(), n, n))
		for i := 0; i < n; i++ {
			fillAPI(r, w, v.Index(i), typ, field)
		}
	default:
		panic("fillAPI: " + v.Type().String())
	}
}

func genAPI[T any](r *rand.Rand, w *World) *T {
	x := new(T)
	fillAPI(r, w, reflect.ValueOf(x).Elem(), "", "")

	return x
}

func hx(b []byte) string { return "0x" + hex.EncodeToString(b) }

func jstr(s string) string {
	b, err := json.Marshal(s)
	if err != nil {
		panic(err)
	}

	return string(b)
}

// apiJSON is the JSON form of the message. Members which may be left out when they are empty are included if r decides so.
func apiJSON(r *rand.Rand, w *World, v reflect.Value) string {
	switch x := v.Interface().(type) {
	case *iotago.OutputIDProof, *iotago.Block, iotago.TxEssenceOutput, iotago.ProtocolParameters:
		b, err := w.API.JSONEncode(x) // their forms are judged by P01
		if err != nil {
			panic(err)
		}

		return string(b)
	case api.BlockState:
		return jstr(blockStates[x])
	case api.TransactionState:
		return jstr(txStates[x])
	case time.Time:
		return jstr(strconv.FormatInt(x.UnixNano(), 10))
	}
	switch v.Kind() {
	case reflect.Pointer:
		return apiJSON(r, w, v.Elem())
	case reflect.Struct:
		var parts []string
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if !f.IsExported() {
				continue
			}
			if apiOmit[v.Type().Name()+"."+f.Name] && zeroValue(v.Field(i)) && (v.Field(i).Kind() == reflect.Pointer || r == nil || coin(r, 2)) {
				continue
			}
			parts = append(parts, jstr(apiKey(v.Type().Name(), f.Name))+":"+apiJSON(r, w, v.Field(i)))
		}
		if r != nil {
			r.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
		}

		return "{" + strings.Join(parts, ",") + "}"
	case reflect.String:
		return jstr(v.String())
	case reflect.Bool:
		return strconv.FormatBool(v.Bool())
	case reflect.Uint8, reflect.Uint16, reflect.Uint32:
		return strconv.FormatUint(v.Uint(), 10)
	case reflect.Uint64:
		return jstr(strconv.FormatUint(v.Uint(), 10))
	case reflect.Int64:
		return jstr(strconv.FormatInt(v.Int(), 10))
	case reflect.Float64:
		return jstr(strconv.FormatFloat(v.Float(), 'g', -1, 64))
	case reflect.Array:
		return jstr(hx(arrayBytes(v)))
	case reflect.Slice:
		var parts []string
		for i := 0; i < v.Len(); i++ {
			parts = append(parts, apiJSON(r, w, v.Index(i)))
		}

		return "[" + strings.Join(parts, ",") + "]"
	}
	panic("apiJSON: " + v.Type().String())
}

func arrayBytes(v reflect.Value) []byte {
	b := make([]byte, v.Len())
	for i := range b {
		b[i] = byte(v.Index(i).Uint())
	}

	return b
}

// apiBin is the binary form of the message.
func apiBin(v reflect.Value, typ, field string) []byte {
	e := &enc{}
	prefix := func(n int) {
		switch apiLen[typ+"."+field] {
		case 4:
			e.u32(uint32(n))
		case 2:
			e.u16(uint16(n))
		default:
			e.u8(uint8(n))
		}
	}
	switch x := v.Interface().(type) {
	case *iotago.OutputIDProof:
		return refOutputIDProof(x)
	case *iotago.Block:
		return refBlock(x)
	case iotago.TxEssenceOutput:
		return refOutput(x)
	case *iotago.V3ProtocolParameters:
		return refParams(x)
	case *iotago.Commitment:
		return refCommitment(x)
	case time.Time:
		return e.u64(uint64(x.UnixNano())).b
	case iotago.HexOutputID:
		return e.u8(uint8(len(x))).raw([]byte(x)).b
	}
	switch v.Kind() {
	case reflect.Interface, reflect.Pointer:
		if typ+"."+field == "OutputMetadata.Spent" { // optional: preceded by its length
			if v.IsNil() {
				return e.u32(0).b
			}
			b := apiBin(v.Elem(), typ, field)

			return e.u32(uint32(len(b))).raw(b).b
		}

		return apiBin(v.Elem(), typ, field)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if f := v.Type().Field(i); f.IsExported() {
				e.raw(apiBin(v.Field(i), v.Type().Name(), f.Name))
			}
		}
	case reflect.String:
		prefix(v.Len())
		e.raw([]byte(v.String()))
	case reflect.Bool:
		if v.Bool() {
			e.u8(1)
		} else {
			e.u8(0)
		}
	case reflect.Uint8:
		e.u8(uint8(v.Uint()))
	case reflect.Uint16:
		e.u16(uint16(v.Uint()))
	case reflect.Uint32:
		e.u32(uint32(v.Uint()))
	case reflect.Uint64:
		e.u64(v.Uint())
	case reflect.Int64:
		e.u64(uint64(v.Int()))
	case reflect.Float64:
		e.b = binary.LittleEndian.AppendUint64(e.b, math.Float64bits(v.Float()))
	case reflect.Array:
		e.raw(arrayBytes(v))
	case reflect.Slice:
		prefix(v.Len())
		for i := 0; i < v.Len(); i++ {
			e.raw(apiBin(v.Index(i), "", ""))
		}
	default:
		panic("apiBin: " + v.Type().String())
	}

	return e.b
}

// same describes an object completely: nil and empty lists, and equal moments in time, are the same.
func same(x any) string {
	var b strings.Builder
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		if !v.IsValid() {
			b.WriteString("nil")

			return
		}
		if v.Type() == apiType {
			return
		}
		if v.Type() == timeType {
			fmt.Fprintf(&b, "%d", v.Interface().(time.Time).UnixNano())

			return
		}
		switch v.Kind() {
		case reflect.Interface, reflect.Pointer:
			if v.IsNil() {
				b.WriteString("nil")

				return
			}
			if x, is := v.Interface().(*big.Int); is {
				b.WriteString(x.String())

				return
			}
			if p, is := v.Interface().(iotago.ProtocolParameters); is {
				y, err := p.Bytes()
				fmt.Fprintf(&b, "%x%v", y, err)

				return
			}
			if p, is := v.Interface().(*iotago.OutputIDProof); is {
				fmt.Fprintf(&b, "%x", refOutputIDProof(p))

				return
			}
			if v.Kind() == reflect.Pointer {
				b.WriteString("&")
			}
			walk(v.Elem())
		case reflect.Struct:
			b.WriteString(v.Type().Name() + "{")
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).IsExported() {
					b.WriteString(v.Type().Field(i).Name + ":")
					walk(v.Field(i))
					b.WriteString(" ")
				}
			}
			b.WriteString("}")
		case reflect.Slice, reflect.Array:
			if v.Type().Elem().Kind() == reflect.Uint8 {
				if v.Kind() == reflect.Slice {
					fmt.Fprintf(&b, "%x", v.Bytes())
				} else {
					fmt.Fprintf(&b, "%x", arrayBytes(v))
				}

				return
			}
			b.WriteString("[")
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
				b.WriteString(" ")
			}
			b.WriteString("]")
		case reflect.Map:
			var l []string
			for _, k := range v.MapKeys() {
				l = append(l, fmt.Sprintf("%q=%x", k.String(), v.MapIndex(k).Interface()))
			}
			sort.Strings(l)
			fmt.Fprint(&b, l)
		case reflect.Float64:
			fmt.Fprintf(&b, "%x", math.Float64bits(v.Float()))
		case reflect.String:
			fmt.Fprintf(&b, "%q", v.String())
		case reflect.Func, reflect.Chan:
		case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			fmt.Fprintf(&b, "%d", v.Uint())
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			fmt.Fprintf(&b, "%d", v.Int())
		default:
			fmt.Fprintf(&b, "%v", v)
		}
	}
	walk(reflect.ValueOf(x))

	return b.String()
}

// firstDiff shows where two descriptions differ.
func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	cut := func(s string) string {
		lo, hi := max(0, i-80), min(len(s), i+120)

		return s[lo:hi]
	}

	return fmt.Sprintf("at %d: …%s… expected …%s…", i, cut(a), cut(b))
}

type apiMsg struct {
	name string
	gen  func(r *rand.Rand, w *World) any
	new  func() any
}

func msg[T any]() apiMsg {
	return apiMsg{reflect.TypeOf((*T)(nil)).Elem().Name(), func(r *rand.Rand, w *World) any { return genAPI[T](r, w) }, func() any { return new(T) }}
}

var apiMsgs = []apiMsg{
	msg[api.InfoResponse](), msg[api.NetworkHealthResponse](), msg[api.NetworkMetricsResponse](), msg[api.IssuanceBlockHeaderResponse](),
	msg[api.BlockCreatedResponse](), msg[api.BlockMetadataResponse](), msg[api.BlockWithMetadataResponse](), msg[api.TransactionMetadataResponse](),
	msg[api.OutputResponse](), msg[api.OutputWithID](), msg[api.OutputMetadata](), msg[api.OutputWithMetadataResponse](), msg[api.UTXOChangesResponse](),
	msg[api.UTXOChangesFullResponse](), msg[api.CongestionResponse](), msg[api.ValidatorResponse](), msg[api.ValidatorsResponse](), msg[api.ManaRewardsResponse](),
	msg[api.CommitteeMemberResponse](), msg[api.CommitteeResponse](), msg[api.IndexerResponse](), msg[api.AddPeerRequest](), msg[api.PeerInfo](), msg[api.PeersResponse](),
	msg[api.PruneDatabaseRequest](), msg[api.PruneDatabaseResponse](), msg[api.BlockIssuerInfo](), msg[api.HealthResponse](), msg[api.RoutesResponse](),
}

func init() {
	register("P33", func(c *Ctx) {
		c.Rule("messages: every message of the node API with random content, in the binary and the JSON form of independent encoders; the library must produce both forms and decode both to the same message")
		c.Rule("hostile: the same forms, truncated and mutated; decoding gives an error or a message, never a panic, and what is decoded can be encoded again, in the same length, and decodes to the same")
		c.Assume("Nested protocol objects (blocks, outputs, parameters) are judged by P01")

		c.Run("messages", c.N(20000, 400000), func(t *Case) {
			r := t.R
			w := pickWorld(r)
			m := apiMsgs[t.Index%len(apiMsgs)]
			obj := m.gen(r, w)
			v := reflect.ValueOf(obj)
			bin := apiBin(v, "", "")
			want := same(obj)
			t.Eval("messages/" + m.name + "/" + itoa(len(bin)%64))
			t.Count("message " + m.name)
			got, err := w.API.Encode(obj)
			if t.Check(err == nil, "encode:"+m.name, "Encode: %v", err) {
				t.Check(bytes.Equal(got, bin), "binary-form:"+m.name, "Encode gives %x, expected %x", got, bin)
			}
			back := m.new()
			n, err := w.API.Decode(bin, back)
			if t.Check(err == nil, "decode:"+m.name, "Decode: %v", err) {
				t.Check(n == len(bin), "consumed:"+m.name, "Decode consumed %d of %d bytes", n, len(bin))
				s := same(back)
				t.Check(s == want, "decoded:"+m.name, "Decode gives another message: %s", firstDiff(s, want))
			}
			j, err := w.API.JSONEncode(obj)
			if t.Check(err == nil, "json-encode:"+m.name, "JSONEncode: %v", err) {
				ref := []byte(apiJSON(nil, w, v))
				t.Check(sameJSON(j, ref), "json-form:"+m.name, "JSONEncode gives %s, expected %s", j, ref)
			}
			jback := m.new()
			ref := []byte(apiJSON(r, w, v))
			err = w.API.JSONDecode(ref, jback)
			if t.Check(err == nil, "json-decode:"+m.name, "JSONDecode(%s): %v", ref, err) {
				s := same(jback)
				t.Check(s == want, "json-decoded:"+m.name, "JSONDecode gives another message: %s", firstDiff(s, want))
			}
		})

		c.Run("hostile", c.N(20000, 400000), func(t *Case) {
			r := t.R
			w := pickWorld(r)
			m := apiMsgs[t.Index%len(apiMsgs)]
			v := reflect.ValueOf(m.gen(r, w))
			bin := append([]byte{}, apiBin(v, "", "")...)
			for i := 0; i < 1+r.Intn(3) && len(bin) > 0; i++ {
				switch r.Intn(4) {
				case 0:
					bin = bin[:r.Intn(len(bin))]
				case 1:
					bin[r.Intn(len(bin))] = byte(r.Intn(256))
				case 2:
					bin[r.Intn(len(bin))] = 0xff
				case 3:
					bin[r.Intn(min(len(bin), 8))] ^= 1 << r.Intn(8)
				}
			}
			back := m.new()
			n, err := w.API.Decode(bin, back, serix.WithValidation())
			t.Eval(fmt.Sprint("hostile/", m.name, err == nil))
			if err != nil {
				t.Count("hostile bytes refused")

				return
			}
			t.Count("hostile bytes decoded")
			if !t.Check(n <= len(bin), "consumed:"+m.name, "Decode consumed %d of %d bytes", n, len(bin)) {
				return
			}
			again, err := w.API.Encode(back)
			if t.Check(err == nil, "hostile:encode:"+m.name, "the decoded message does not encode: %v", err) {
				third := m.new()
				n2, err := w.API.Decode(again, third)
				t.Check(err == nil && n2 == len(again) && len(again) == n && same(third) == same(back), "hostile:form:"+m.name, "decoded %x, encodes to %x, which decodes differently (%v)", bin[:n], again, err)
			}
			// what was decoded can be shown, as JSON or not
			_, _ = w.API.JSONEncode(back)
			for _, x := range []any{back} {
				if b, is := x.(*api.BlockMetadataResponse); is {
					_ = b.BlockState.String()
				}
				if b, is := x.(*api.TransactionMetadataResponse); is {
					_ = b.TransactionState.String()
				}
				if b, is := x.(*api.BlockWithMetadataResponse); is {
					_ = b.Metadata.BlockState.String()
				}
			}
		})

		c.Run("states", c.N(1024, 20480), func(t *Case) {
			b := t.Index % 256
			bs, ts := api.BlockState(b), api.TransactionState(b)
			for _, x := range []struct {
				name  string
				known []string
				enc   func() (any, error)
				str   func() string
				dec   func(s any) (byte, error)
			}{
				{"BlockState", blockStates, bs.EncodeJSON, bs.String, func(s any) (byte, error) { var v api.BlockState; err := v.DecodeJSON(s); return byte(v), err }},
				{"TransactionState", txStates, ts.EncodeJSON, ts.String, func(s any) (byte, error) {
					var v api.TransactionState
					err := v.DecodeJSON(s)
					return byte(v), err
				}},
			} {
				got, err := x.enc()
				text := x.str()
				t.Eval(fmt.Sprint("state-value/", x.name, b))
				if b >= len(x.known) {
					t.Check(err != nil, "state-unknown:"+x.name, "the unknown %s %d encodes to %v in JSON", x.name, b, got)
					for _, k := range x.known {
						t.Check(text != k, "state-text:"+x.name, "the unknown %s %d is shown as %q", x.name, b, k)
					}

					continue
				}
				t.Check(err == nil && got == any(x.known[b]) && text == x.known[b], "state-known:"+x.name, "%s %d: %v %v %q, want %q", x.name, b, got, err, text, x.known[b])
				if err == nil {
					back, err := x.dec(got)
					t.Check(err == nil && back == byte(b), "state-back:"+x.name, "%s %d comes back from its JSON as %d, %v", x.name, b, back, err)
				}
			}
		})

		c.Run("json-hostile", c.N(8000, 200000), func(t *Case) {
			r := t.R
			w := pickWorld(r)
			m := apiMsgs[t.Index%len(apiMsgs)]
			doc := []byte(apiJSON(r, w, reflect.ValueOf(m.gen(r, w))))
			states := []string{`"finalised"`, `"Pending"`, `""`, `"unknown "`, `"committed"`, `"dropped"`, `"failed"`, `"confirmed"`}
			if m.name == "BlockMetadataResponse" || m.name == "TransactionMetadataResponse" {
				set := blockStates
				key := "blockState"
				if m.name == "TransactionMetadataResponse" {
					set, key = txStates, "transactionState"
				}
				s := states[r.Intn(len(states))]
				var parts map[string]json.RawMessage
				if err := json.Unmarshal(doc, &parts); err != nil {
					panic(err)
				}
				parts[key] = json.RawMessage(s)
				doc, _ = json.Marshal(parts)
				err := w.API.JSONDecode(doc, m.new())
				known := in2(strings.Trim(s, `"`), set...)
				t.Eval("states/" + m.name + s)
				t.Check(known == (err == nil), "state:"+m.name, "state %s: error %v", s, err)

				return
			}
			err := w.API.JSONDecode(mutateJSON(r, doc), m.new())
			t.Eval(fmt.Sprint("json-hostile/", m.name, err == nil))
		})
	})
}
