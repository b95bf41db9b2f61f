package main

import (
	"bytes"
	"context"
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/url"
	"reflect"
	"runtime/debug"
	"slices"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/api"
	"github.com/iotaledger/iota.go/v4/nodeclient"
)

// P29: the clients of the node's HTTP API against a fake node.

const (
	mimeJSON = "application/json"
	mimeRaw  = "application/vnd.iota.serializer-v2"
	nodeBase = "http://node.test"
)

// nodeRequest is what the node got.
type nodeRequest struct {
	method, path, accept, ctype, auth string
	query                             url.Values
	header                            http.Header
	body                              []byte
}

// exchange is one expected request and its answer.
type exchange struct {
	method, path string
	query        url.Values
	check        func(q *nodeRequest) string // "" if the request is as expected
	status       int
	header       http.Header
	json, raw    []byte // the forms of the answer the node can give
	hangup       error  // the connection breaks before (or, if midway, while) the answer is sent
	midway       bool
}

// nodeSession is the node's side of one call of the client.
type nodeSession struct {
	mu       sync.Mutex
	expect   []*exchange
	pos      int
	problems []string
	routes   []string
	opened   int32
	closed   int32
}

type nodeKey struct{}

// fakeNode is the transport of a client: every request is served by the session in its context.
type fakeNode struct {
	host, prefix, auth string
	def                *nodeSession
	requests           int64
}

type trackedBody struct {
	s      *nodeSession
	b      []byte
	err    error
	chunk  int
	closed int32
}

func (b *trackedBody) Read(p []byte) (int, error) {
	if len(b.b) == 0 {
		if b.err != nil {
			return 0, b.err
		}

		return 0, io.EOF
	}
	n := copy(p, b.b[:min(len(b.b), b.chunk)])
	b.b = b.b[n:]

	return n, nil
}

func (b *trackedBody) Close() error {
	if atomic.AddInt32(&b.closed, 1) == 1 {
		atomic.AddInt32(&b.s.closed, 1)
	}

	return nil
}

func (n *fakeNode) RoundTrip(req *http.Request) (*http.Response, error) {
	atomic.AddInt64(&n.requests, 1)
	s, _ := req.Context().Value(nodeKey{}).(*nodeSession)
	if s == nil {
		s = n.def
	}
	q := &nodeRequest{method: req.Method, path: req.URL.EscapedPath(), query: req.URL.Query(), accept: req.Header.Get("Accept"), ctype: req.Header.Get("Content-Type"), auth: req.Header.Get("Authorization"), header: req.Header}
	if req.Body != nil {
		b, err := io.ReadAll(req.Body)
		if err != nil {
			return nil, err
		}
		_ = req.Body.Close()
		q.body = b
	}
	if err := req.Context().Err(); err != nil {
		return nil, err
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	problem := func(f string, args ...any) { s.problems = append(s.problems, fmt.Sprintf(f, args...)) }
	answer := func(status int, ctype string, h http.Header, body []byte, e *exchange) *http.Response {
		res := &http.Response{Status: strconv.Itoa(status), StatusCode: status, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Request: req, ContentLength: -1}
		for k, v := range h {
			res.Header[k] = v
		}
		res.Header.Set("Content-Type", ctype)
		tb := &trackedBody{s: s, b: body, chunk: 1 + len(body)/3}
		if e != nil && e.midway {
			tb.b = body[:len(body)/2]
			tb.err = e.hangup
		}
		res.Body = tb
		atomic.AddInt32(&s.opened, 1)

		return res
	}
	if req.URL.Host != n.host || !strings.HasPrefix(q.path, n.prefix) {
		problem("url: request to %s", req.URL)
	}
	q.path = strings.TrimPrefix(q.path, n.prefix)
	if q.auth != n.auth {
		problem("auth: Authorization is %q, expected %q", q.auth, n.auth)
	}
	if q.path == "/api/routes" && len(s.routes) > 0 {
		r := &api.RoutesResponse{}
		for _, x := range s.routes {
			r.Routes = append(r.Routes, iotago.PrefixedStringUint8(x))
		}

		return answer(200, mimeJSON, nil, []byte(apiJSON(nil, nil, reflect.ValueOf(r))), nil), nil
	}
	if s.pos >= len(s.expect) {
		problem("extra: unexpected request %s %s", q.method, q.path)

		return answer(404, mimeJSON, nil, nil, nil), nil
	}
	e := s.expect[s.pos]
	s.pos++
	if q.method != e.method || q.path != e.path {
		problem("route: %s %s, expected %s %s", q.method, q.path, e.method, e.path)

		return answer(404, mimeJSON, nil, nil, nil), nil
	}
	if len(q.query)+len(e.query) > 0 && !reflect.DeepEqual(q.query, e.query) {
		problem("query: %v, expected %v", q.query, e.query)
	}
	if e.check != nil {
		if p := e.check(q); p != "" {
			problem("request: %s", p)
		}
	}
	if e.hangup != nil && !e.midway {
		return nil, e.hangup
	}
	if e.status >= 300 || e.status == 204 {
		return answer(e.status, mimeJSON, e.header, e.json, e), nil
	}
	body, ctype := e.json, mimeJSON
	switch {
	case strings.Contains(q.accept, mimeRaw):
		body, ctype = e.raw, mimeRaw
	case q.accept != "" && !strings.Contains(q.accept, mimeJSON) && !strings.Contains(q.accept, "*/*"):
		problem("accept: %q", q.accept)
	}

	return answer(e.status, ctype, e.header, body, e), nil
}

// call is one use of the client.
type call struct {
	name   string
	expect []*exchange
	do     func(ctx context.Context, cl *nodeclient.Client) (any, error)
	want   string
	routes bool // the client first asks for the routes of the node
	empty  bool // the answer has no content
}

var allRoutes = []string{"core/v3", "management/v1", "indexer/v2", "mqtt/v2", "blockissuer/v1"}

const corePath = "/api/core/v3"

func jsonCall[T any](t *Case, w *World, name, path string, q url.Values, do func(ctx context.Context, cl *nodeclient.Client) (*T, error)) *call {
	obj := genAPI[T](t.R, w)

	return &call{
		name:   name,
		expect: []*exchange{{method: "GET", path: path, query: q, status: 200, json: []byte(apiJSON(t.R, w, reflect.ValueOf(obj))), raw: apiBin(reflect.ValueOf(obj), "", "")}},
		do:     func(ctx context.Context, cl *nodeclient.Client) (any, error) { return do(ctx, cl) },
		want:   same(obj),
	}
}

func jsonOf(w *World, x any) []byte {
	b, err := w.API.JSONEncode(x)
	if err != nil {
		panic(err)
	}

	return b
}

func blockCall(t *Case, w *World, name, path string, do func(ctx context.Context, cl *nodeclient.Client) (*iotago.Block, error)) *call {
	b := genValidBlock(t.R, w)

	return &call{
		name:   name,
		expect: []*exchange{{method: "GET", path: path, status: 200, json: jsonOf(w, b), raw: refBlock(b)}},
		do:     func(ctx context.Context, cl *nodeclient.Client) (any, error) { return do(ctx, cl) },
		want:   same(b),
	}
}

// provenOutput is an output of a valid transaction with its ID and the proof of it.
func provenOutput(r *rand.Rand, w *World) (iotago.OutputID, iotago.TxEssenceOutput, *iotago.OutputIDProof) {
	tx := genValidTx(r, w)
	i := uint16(r.Intn(len(tx.Outputs)))
	p, err := iotago.OutputIDProofFromTransaction(tx, i)
	if err != nil {
		panic(err)
	}

	return refOutputID(refTxID(tx), i), tx.Outputs[i], p
}

func outputExchange(r *rand.Rand, w *World) (iotago.OutputID, iotago.TxEssenceOutput, *exchange) {
	id, o, p := provenOutput(r, w)

	return id, o, outputAnswer(w, id, o, p)
}

func outputAnswer(w *World, id iotago.OutputID, o iotago.TxEssenceOutput, p *iotago.OutputIDProof) *exchange {
	res := &api.OutputResponse{Output: o, OutputIDProof: p}

	return &exchange{method: "GET", path: corePath + "/outputs/" + hx(id[:]), status: 200, json: []byte(apiJSON(nil, w, reflect.ValueOf(res))), raw: apiBin(reflect.ValueOf(res), "", "")}
}

type outMeta struct {
	Output iotago.Output
	Meta   *api.OutputMetadata
}

type single[T any] struct {
	ID   *iotago.OutputID
	Out  T
	Slot iotago.SlotIndex
}

// singleCall is a query for the one output of a chain.
func singleCall(t *Case, w *World, name, path string, typ iotago.OutputType, do func(ctx context.Context, cl nodeclient.IndexerClient) (*iotago.OutputID, iotago.Output, iotago.SlotIndex, error)) *call {
	r := t.R
	var id iotago.OutputID
	var o iotago.TxEssenceOutput
	var ex *exchange
	for i := 0; ; i++ {
		if i > 400 {
			return nil
		}
		id, o, ex = outputExchange(r, w)
		if o.Type() == typ {
			break
		}
	}
	res := &api.IndexerResponse{CommittedSlot: iotago.SlotIndex(ru32(r)), PageSize: ru32(r), Items: iotago.HexOutputIDs{iotago.HexOutputID(hx(id[:]))}}

	return &call{
		name: name, routes: true,
		expect: []*exchange{{method: "GET", path: path, status: 200, json: []byte(apiJSON(r, w, reflect.ValueOf(res))), raw: apiBin(reflect.ValueOf(res), "", "")}, ex},
		do: func(ctx context.Context, cl *nodeclient.Client) (any, error) {
			ix, err := cl.Indexer(ctx)
			if err != nil {
				return nil, err
			}
			id, o, slot, err := do(ctx, ix)

			return single[iotago.Output]{id, o, slot}, err
		},
		want: same(single[iotago.Output]{&id, o, res.CommittedSlot}),
	}
}

func genPeerID(r *rand.Rand) string {
	const set = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
	b := make([]byte, 52)
	for i := range b {
		b[i] = set[r.Intn(len(set))]
	}

	return "12D3Koo" + string(b)
}

func rid36(r *rand.Rand) [36]byte { return genSlotID(r) }

// calls makes one call of each method of the clients.
var calls = []func(t *Case, w *World) *call{
	func(t *Case, w *World) *call {
		return &call{name: "Health", empty: true, expect: []*exchange{{method: "GET", path: "/health", status: 200}}, do: func(ctx context.Context, cl *nodeclient.Client) (any, error) { return cl.Health(ctx) }, want: same(true)}
	},
	func(t *Case, w *World) *call {
		return &call{name: "NetworkHealth", empty: true, expect: []*exchange{{method: "GET", path: corePath + "/network/health", status: 200}}, do: func(ctx context.Context, cl *nodeclient.Client) (any, error) { return cl.NetworkHealth(ctx) }, want: same(true)}
	},
	func(t *Case, w *World) *call {
		return jsonCall(t, w, "Routes", "/api/routes", nil, func(ctx context.Context, cl *nodeclient.Client) (*api.RoutesResponse, error) { return cl.Routes(ctx) })
	},
	func(t *Case, w *World) *call {
		return jsonCall(t, w, "Info", corePath+"/info", nil, func(ctx context.Context, cl *nodeclient.Client) (*api.InfoResponse, error) { return cl.Info(ctx) })
	},
	func(t *Case, w *World) *call {
		return jsonCall(t, w, "NetworkMetrics", corePath+"/network/metrics", nil, func(ctx context.Context, cl *nodeclient.Client) (*api.NetworkMetricsResponse, error) {
			return cl.NetworkMetrics(ctx)
		})
	},
	func(t *Case, w *World) *call {
		b := genValidBlock(t.R, w)
		want := refBlock(b)
		id := iotago.BlockID(rid36(t.R))

		return &call{name: "SubmitBlock", empty: true, expect: []*exchange{{method: "POST", path: corePath + "/blocks", status: 201, header: http.Header{"Location": {hx(id[:])}}, check: rawBody(want)}},
			do: func(ctx context.Context, cl *nodeclient.Client) (any, error) { return cl.SubmitBlock(ctx, b) }, want: same(id)}
	},
	func(t *Case, w *World) *call {
		id := iotago.BlockID(rid36(t.R))

		return blockCall(t, w, "BlockByBlockID", corePath+"/blocks/"+hx(id[:]), func(ctx context.Context, cl *nodeclient.Client) (*iotago.Block, error) {
			return cl.BlockByBlockID(ctx, id)
		})
	},
	func(t *Case, w *World) *call {
		id := iotago.BlockID(rid36(t.R))

		return jsonCall(t, w, "BlockMetadataByBlockID", corePath+"/blocks/"+hx(id[:])+"/metadata", nil, func(ctx context.Context, cl *nodeclient.Client) (*api.BlockMetadataResponse, error) {
			return cl.BlockMetadataByBlockID(ctx, id)
		})
	},
	func(t *Case, w *World) *call {
		id := iotago.BlockID(rid36(t.R))

		return jsonCall(t, w, "BlockWithMetadataByBlockID", corePath+"/blocks/"+hx(id[:])+"/full", nil, func(ctx context.Context, cl *nodeclient.Client) (*api.BlockWithMetadataResponse, error) {
			return cl.BlockWithMetadataByBlockID(ctx, id)
		})
	},
	func(t *Case, w *World) *call {
		return jsonCall(t, w, "BlockIssuance", corePath+"/blocks/issuance", nil, func(ctx context.Context, cl *nodeclient.Client) (*api.IssuanceBlockHeaderResponse, error) {
			return cl.BlockIssuance(ctx)
		})
	},
	func(t *Case, w *World) *call {
		id, o, ex := outputExchange(t.R, w)

		return &call{name: "OutputByID", expect: []*exchange{ex}, do: func(ctx context.Context, cl *nodeclient.Client) (any, error) { return cl.OutputByID(ctx, id) }, want: same(o)}
	},
	func(t *Case, w *World) *call {
		id := genOutputID(t.R)

		return jsonCall(t, w, "OutputMetadataByID", corePath+"/outputs/"+hx(id[:])+"/metadata", nil, func(ctx context.Context, cl *nodeclient.Client) (*api.OutputMetadata, error) {
			return cl.OutputMetadataByID(ctx, id)
		})
	},
	func(t *Case, w *World) *call {
		id, o, p := provenOutput(t.R, w)
		res := &api.OutputWithMetadataResponse{Output: o, OutputIDProof: p, Metadata: genAPI[api.OutputMetadata](t.R, w)}

		return &call{name: "OutputWithMetadataByID", expect: []*exchange{{method: "GET", path: corePath + "/outputs/" + hx(id[:]) + "/full", status: 200, json: []byte(apiJSON(t.R, w, reflect.ValueOf(res))), raw: apiBin(reflect.ValueOf(res), "", "")}},
			do: func(ctx context.Context, cl *nodeclient.Client) (any, error) {
				o, m, err := cl.OutputWithMetadataByID(ctx, id)

				return outMeta{o, m}, err
			}, want: same(outMeta{o, res.Metadata})}
	},
	func(t *Case, w *World) *call {
		tx := genValidTx(t.R, w)
		id := refTxID(tx)

		return &call{name: "TransactionByID", expect: []*exchange{{method: "GET", path: corePath + "/transactions/" + hx(id[:]), status: 200, json: jsonOf(w, tx), raw: refTx(tx)}},
			do: func(ctx context.Context, cl *nodeclient.Client) (any, error) { return cl.TransactionByID(ctx, id) }, want: same(tx)}
	},
	func(t *Case, w *World) *call {
		id := iotago.TransactionID(rid36(t.R))

		return blockCall(t, w, "TransactionIncludedBlock", corePath+"/transactions/"+hx(id[:])+"/included-block", func(ctx context.Context, cl *nodeclient.Client) (*iotago.Block, error) {
			return cl.TransactionIncludedBlock(ctx, id)
		})
	},
	func(t *Case, w *World) *call {
		id := iotago.TransactionID(rid36(t.R))

		return jsonCall(t, w, "TransactionIncludedBlockMetadata", corePath+"/transactions/"+hx(id[:])+"/included-block/metadata", nil, func(ctx context.Context, cl *nodeclient.Client) (*api.BlockMetadataResponse, error) {
			return cl.TransactionIncludedBlockMetadata(ctx, id)
		})
	},
	func(t *Case, w *World) *call {
		id := iotago.TransactionID(rid36(t.R))

		return jsonCall(t, w, "TransactionMetadata", corePath+"/transactions/"+hx(id[:])+"/metadata", nil, func(ctx context.Context, cl *nodeclient.Client) (*api.TransactionMetadataResponse, error) {
			return cl.TransactionMetadata(ctx, id)
		})
	},
	func(t *Case, w *World) *call {
		id := iotago.CommitmentID(rid36(t.R))
		c := jsonCall(t, w, "CommitmentByID", corePath+"/commitments/"+hx(id[:]), nil, func(ctx context.Context, cl *nodeclient.Client) (*iotago.Commitment, error) {
			return cl.CommitmentByID(ctx, id)
		})

		return c
	},
	func(t *Case, w *World) *call {
		id := iotago.CommitmentID(rid36(t.R))

		return jsonCall(t, w, "CommitmentUTXOChangesByID", corePath+"/commitments/"+hx(id[:])+"/utxo-changes", nil, func(ctx context.Context, cl *nodeclient.Client) (*api.UTXOChangesResponse, error) {
			return cl.CommitmentUTXOChangesByID(ctx, id)
		})
	},
	func(t *Case, w *World) *call {
		id := iotago.CommitmentID(rid36(t.R))

		return jsonCall(t, w, "CommitmentUTXOChangesFullByID", corePath+"/commitments/"+hx(id[:])+"/utxo-changes/full", nil, func(ctx context.Context, cl *nodeclient.Client) (*api.UTXOChangesFullResponse, error) {
			return cl.CommitmentUTXOChangesFullByID(ctx, id)
		})
	},
	func(t *Case, w *World) *call {
		slot := ru32(t.R)

		return jsonCall(t, w, "CommitmentBySlot", fmt.Sprintf("%s/commitments/by-slot/%d", corePath, slot), nil, func(ctx context.Context, cl *nodeclient.Client) (*iotago.Commitment, error) {
			return cl.CommitmentBySlot(ctx, iotago.SlotIndex(slot))
		})
	},
	func(t *Case, w *World) *call {
		slot := ru32(t.R)

		return jsonCall(t, w, "CommitmentUTXOChangesBySlot", fmt.Sprintf("%s/commitments/by-slot/%d/utxo-changes", corePath, slot), nil, func(ctx context.Context, cl *nodeclient.Client) (*api.UTXOChangesResponse, error) {
			return cl.CommitmentUTXOChangesBySlot(ctx, iotago.SlotIndex(slot))
		})
	},
	func(t *Case, w *World) *call {
		slot := ru32(t.R)

		return jsonCall(t, w, "CommitmentUTXOChangesFullBySlot", fmt.Sprintf("%s/commitments/by-slot/%d/utxo-changes/full", corePath, slot), nil, func(ctx context.Context, cl *nodeclient.Client) (*api.UTXOChangesFullResponse, error) {
			return cl.CommitmentUTXOChangesFullBySlot(ctx, iotago.SlotIndex(slot))
		})
	},
	func(t *Case, w *World) *call {
		r := t.R
		addr := iotago.AccountAddress(r32(r))
		score := iotago.WorkScore(ru32(r))
		q := url.Values{}
		var opt []iotago.CommitmentID
		if score > 0 {
			q.Set("workScore", fmt.Sprint(uint32(score)))
		}
		if coin(r, 2) {
			id := iotago.CommitmentID(rid36(r))
			opt = append(opt, id)
			q.Set("commitmentId", hx(id[:]))
		}

		return jsonCall(t, w, "Congestion", corePath+"/accounts/"+refBech32(w, &addr)+"/congestion", q, func(ctx context.Context, cl *nodeclient.Client) (*api.CongestionResponse, error) {
			return cl.Congestion(ctx, &addr, score, opt...)
		})
	},
	func(t *Case, w *World) *call {
		r := t.R
		size := ru64(r)
		q := url.Values{}
		var cursor []string
		if size > 0 {
			q.Set("pageSize", fmt.Sprint(size))
		}
		if coin(r, 2) {
			cursor = append(cursor, genCursor(r))
			q.Set("cursor", cursor[0])
		}

		return jsonCall(t, w, "Validators", corePath+"/validators", q, func(ctx context.Context, cl *nodeclient.Client) (*api.ValidatorsResponse, error) {
			return cl.Validators(ctx, size, cursor...)
		})
	},
	func(t *Case, w *World) *call {
		addr := iotago.AccountAddress(r32(t.R))

		return jsonCall(t, w, "Validator", corePath+"/validators/"+refBech32(w, &addr), nil, func(ctx context.Context, cl *nodeclient.Client) (*api.ValidatorResponse, error) {
			return cl.Validator(ctx, &addr)
		})
	},
	func(t *Case, w *World) *call {
		id := genOutputID(t.R)

		return jsonCall(t, w, "Rewards", corePath+"/rewards/"+hx(id[:]), nil, func(ctx context.Context, cl *nodeclient.Client) (*api.ManaRewardsResponse, error) {
			return cl.Rewards(ctx, id)
		})
	},
	func(t *Case, w *World) *call {
		q := url.Values{}
		var opt []iotago.EpochIndex
		if coin(t.R, 2) {
			opt = append(opt, iotago.EpochIndex(ru32(t.R)))
			q.Set("epoch", fmt.Sprint(uint32(opt[0])))
		}

		return jsonCall(t, w, "Committee", corePath+"/committee", q, func(ctx context.Context, cl *nodeclient.Client) (*api.CommitteeResponse, error) {
			return cl.Committee(ctx, opt...)
		})
	},
	// management
	func(t *Case, w *World) *call {
		id := genPeerID(t.R)
		c := jsonCall(t, w, "PeerByID", "/api/management/v1/peers/"+id, nil, func(ctx context.Context, cl *nodeclient.Client) (*api.PeerInfo, error) {
			m, err := cl.Management(ctx)
			if err != nil {
				return nil, err
			}

			return m.PeerByID(ctx, id)
		})
		c.routes = true

		return c
	},
	func(t *Case, w *World) *call {
		c := jsonCall(t, w, "Peers", "/api/management/v1/peers", nil, func(ctx context.Context, cl *nodeclient.Client) (*api.PeersResponse, error) {
			m, err := cl.Management(ctx)
			if err != nil {
				return nil, err
			}

			return m.Peers(ctx)
		})
		c.routes = true

		return c
	},
	func(t *Case, w *World) *call {
		r := t.R
		req := &api.AddPeerRequest{MultiAddress: "/ip4/10.0.0." + itoa(r.Intn(256)) + "/tcp/15600/p2p/" + genPeerID(r)}
		var alias []string
		if coin(r, 2) {
			req.Alias = genWireText(r, 255)
			alias = append(alias, req.Alias)
		}
		c := jsonCall(t, w, "AddPeer", "/api/management/v1/peers", nil, func(ctx context.Context, cl *nodeclient.Client) (*api.PeerInfo, error) {
			m, err := cl.Management(ctx)
			if err != nil {
				return nil, err
			}

			return m.AddPeer(ctx, req.MultiAddress, alias...)
		})
		c.routes = true
		c.expect[0].method = "POST"
		c.expect[0].check = func(q *nodeRequest) string {
			want := apiJSON(nil, w, reflect.ValueOf(req))
			if q.ctype != mimeJSON || !sameJSON(q.body, []byte(want)) {
				return fmt.Sprintf("%s %q, expected %q", q.ctype, q.body, want)
			}

			return ""
		}

		return c
	},
	func(t *Case, w *World) *call {
		id := genPeerID(t.R)

		return &call{name: "RemovePeerByID", empty: true, routes: true, expect: []*exchange{{method: "DELETE", path: "/api/management/v1/peers/" + id, status: []int{200, 204}[t.R.Intn(2)]}},
			do: func(ctx context.Context, cl *nodeclient.Client) (any, error) {
				m, err := cl.Management(ctx)
				if err != nil {
					return nil, err
				}

				return nil, m.RemovePeerByID(ctx, id)
			}, want: same(nil)}
	},
	// indexer
	func(t *Case, w *World) *call {
		a := iotago.AccountAddress(r32(t.R))

		return singleCall(t, w, "IndexerAccount", "/api/indexer/v2/outputs/account/"+refBech32(w, &a), iotago.OutputAccount, func(ctx context.Context, cl nodeclient.IndexerClient) (*iotago.OutputID, iotago.Output, iotago.SlotIndex, error) {
			return wrap3(cl.Account(ctx, &a))
		})
	},
	func(t *Case, w *World) *call {
		a := iotago.AnchorAddress(r32(t.R))

		return singleCall(t, w, "IndexerAnchor", "/api/indexer/v2/outputs/anchor/"+refBech32(w, &a), iotago.OutputAnchor, func(ctx context.Context, cl nodeclient.IndexerClient) (*iotago.OutputID, iotago.Output, iotago.SlotIndex, error) {
			return wrap3(cl.Anchor(ctx, &a))
		})
	},
	func(t *Case, w *World) *call {
		a := genFoundryID(t.R)

		return singleCall(t, w, "IndexerFoundry", "/api/indexer/v2/outputs/foundry/"+hx(a[:]), iotago.OutputFoundry, func(ctx context.Context, cl nodeclient.IndexerClient) (*iotago.OutputID, iotago.Output, iotago.SlotIndex, error) {
			return wrap3(cl.Foundry(ctx, a))
		})
	},
	func(t *Case, w *World) *call {
		a := iotago.NFTAddress(r32(t.R))

		return singleCall(t, w, "IndexerNFT", "/api/indexer/v2/outputs/nft/"+refBech32(w, &a), iotago.OutputNFT, func(ctx context.Context, cl nodeclient.IndexerClient) (*iotago.OutputID, iotago.Output, iotago.SlotIndex, error) {
			return wrap3(cl.NFT(ctx, &a))
		})
	},
	func(t *Case, w *World) *call {
		a := iotago.DelegationID(r32(t.R))

		return singleCall(t, w, "IndexerDelegation", "/api/indexer/v2/outputs/delegation/"+hx(a[:]), iotago.OutputDelegation, func(ctx context.Context, cl nodeclient.IndexerClient) (*iotago.OutputID, iotago.Output, iotago.SlotIndex, error) {
			return wrap3(cl.Delegation(ctx, a))
		})
	},
	// block issuer
	func(t *Case, w *World) *call {
		c := jsonCall(t, w, "BlockIssuerInfo", "/api/blockissuer/v1/info", nil, func(ctx context.Context, cl *nodeclient.Client) (*api.BlockIssuerInfo, error) {
			b, err := cl.BlockIssuer(ctx)
			if err != nil {
				return nil, err
			}

			return b.Info(ctx)
		})
		c.routes = true

		return c
	},
	func(t *Case, w *World) *call {
		r := t.R
		var payload iotago.ApplicationPayload = genTaggedData(r)
		if coin(r, 2) {
			payload = genValidSignedTx(r, w)
		}
		cid := iotago.CommitmentID(rid36(r))
		info := &api.BlockIssuerInfo{BlockIssuerAddress: genWireText(r, 80), PowTargetTrailingZeros: uint8(r.Intn(9))}
		res := genAPI[api.BlockCreatedResponse](r, w)

		return &call{
			name: "SendPayload", routes: true,
			expect: []*exchange{
				{method: "GET", path: "/api/blockissuer/v1/info", status: 200, json: []byte(apiJSON(r, w, reflect.ValueOf(info))), raw: apiBin(reflect.ValueOf(info), "", "")},
				{method: "POST", path: "/api/blockissuer/v1/issue", status: 201, json: []byte(apiJSON(r, w, reflect.ValueOf(res))), raw: apiBin(reflect.ValueOf(res), "", ""), check: issueBody(refPayload(payload), cid, int(info.PowTargetTrailingZeros))},
			},
			do: func(ctx context.Context, cl *nodeclient.Client) (any, error) {
				b, err := cl.BlockIssuer(ctx)
				if err != nil {
					return nil, err
				}

				return b.SendPayload(ctx, payload, cid, 1+r.Intn(3))
			},
			want: same(res),
		}
	},
}

func wrap3[T iotago.Output](id *iotago.OutputID, o T, slot iotago.SlotIndex, err error) (*iotago.OutputID, iotago.Output, iotago.SlotIndex, error) {
	if err != nil {
		return id, nil, slot, err
	}

	return id, o, slot, nil
}

func rawBody(want []byte) func(q *nodeRequest) string {
	return func(q *nodeRequest) string {
		if q.ctype != mimeRaw || !bytes.Equal(q.body, want) {
			return fmt.Sprintf("%s %x, expected %x", q.ctype, q.body, want)
		}

		return ""
	}
}

func issueBody(payload []byte, cid iotago.CommitmentID, zeros int) func(q *nodeRequest) string {
	return func(q *nodeRequest) string {
		if p := rawBody(payload)(q); p != "" {
			return p
		}
		if h := q.header.Get("X-IOTA-BlockIssuer-Commitment-ID"); h != hx(cid[:]) {
			return fmt.Sprintf("commitment ID %s, expected %s", h, hx(cid[:]))
		}
		nonce, err := strconv.ParseUint(q.header.Get("X-IOTA-BlockIssuer-PoW-Nonce"), 10, 64)
		if digest := blake(q.body); err != nil || refTrailingZeros(digest[:], nonce) < zeros {
			return fmt.Sprintf("nonce %q does not have %d zeros", q.header.Get("X-IOTA-BlockIssuer-PoW-Nonce"), zeros)
		}

		return ""
	}
}

func hexOfLen(r *rand.Rand, n int) string { return fmt.Sprintf("%x", rbytes(r, n)) }

func genCursor(r *rand.Rand) string {
	if coin(r, 3) {
		return "0x" + fmt.Sprintf("%x", rbytes(r, 38)) + ".10"
	}

	return "a b&c=%/+ä?#" + rascii(r, rlen(r, 0, 10))
}

// refBech32 gives the bech32 form of an address; the codec is judged by P07.
func refBech32(w *World, a iotago.Address) string { return a.Bech32(w.PP.Bech32HRP()) }

var statusErrors = map[int]error{
	400: nodeclient.ErrHTTPBadRequest, 401: nodeclient.ErrHTTPUnauthorized, 404: nodeclient.ErrHTTPNotFound, 500: nodeclient.ErrHTTPInternalServerError,
	501: nodeclient.ErrHTTPNotImplemented, 503: nodeclient.ErrHTTPServiceUnavailable,
}

var statusCodes = []int{400, 401, 404, 500, 501, 503, 402, 403, 405, 406, 409, 415, 418, 422, 429, 502, 504, 505, 304}

// checkStatusError checks that the error is the one of the status and of no other one.
func checkStatusError(t *Case, name string, status int, err error) {
	want, known := statusErrors[status]
	if !known {
		want = nodeclient.ErrHTTPUnknownError
	}
	t.Check(errors.Is(err, want), "status:"+name, "status %d gives %v", status, err)
	for s, e := range statusErrors {
		if s != status && errors.Is(err, e) {
			t.Violate("status:"+name, "status %d gives %v", status, err)
		}
	}
}

// nodeClients are shared clients of every world: plain, with credentials, behind a proxy.
type nodeClients struct {
	w    *World
	node *fakeNode
	cl   *nodeclient.Client
}

func infoOf(w *World, slot iotago.SlotIndex) *api.InfoResponse {
	r := rand.New(rand.NewSource(1))
	info := genAPI[api.InfoResponse](r, w)
	info.ProtocolParameters = []*api.InfoResProtocolParameters{{StartEpoch: 0, Parameters: w.PP}}
	info.Status.LatestCommitmentID = setSlot(rid36(r), uint32(slot))

	return info
}

func infoExchange(w *World, info *api.InfoResponse) *exchange {
	return &exchange{method: "GET", path: corePath + "/info", status: 200, json: []byte(apiJSON(nil, w, reflect.ValueOf(info))), raw: apiBin(reflect.ValueOf(info), "", "")}
}

func newNodeClient(w *World, variant int) *nodeClients {
	n := &fakeNode{host: "node.test", def: &nodeSession{}}
	n.def.expect = []*exchange{infoExchange(w, infoOf(w, w.PP.GenesisSlot()))}
	opts := []nodeclient.ClientOption{nodeclient.WithHTTPClient(&http.Client{Transport: n})}
	if variant&1 != 0 {
		opts = append(opts, nodeclient.WithUserInfo(url.UserPassword("user", "p:ä ss")))
		n.auth = "Basic " + base64.StdEncoding.EncodeToString([]byte("user:p:ä ss"))
	}
	if variant&2 != 0 {
		n.host, n.prefix = "proxy.test:8443", "/tenant-7"
		opts = append(opts, nodeclient.WithRequestURLHook(func(u string) string {
			return strings.Replace(u, nodeBase, "https://proxy.test:8443/tenant-7", 1)
		}))
	}
	cl, err := nodeclient.New(nodeBase, opts...)
	if err != nil {
		panic(err)
	}
	if len(n.def.problems) > 0 {
		panic(fmt.Sprint(n.def.problems))
	}

	return &nodeClients{w, n, cl}
}

func (s *nodeSession) ctx() context.Context {
	return context.WithValue(context.Background(), nodeKey{}, s)
}

// finish reports what the node has to complain about.
func (s *nodeSession) finish(t *Case, name string, all bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, p := range s.problems {
		t.Violate("request:"+name+":"+p[:strings.Index(p, ":")], "%s", p)
	}
	if all {
		t.Check(s.pos == len(s.expect), "request:"+name+":missing", "%d of %d requests were made", s.pos, len(s.expect))
	}
	o, c := atomic.LoadInt32(&s.opened), atomic.LoadInt32(&s.closed)
	t.Check(o == c, "body-not-closed:"+name, "%d of %d response bodies were closed", c, o)
	t.Add("requests", int64(o))
}

func init() {
	register("P29", func(c *Ctx) {
		c.Rule("calls: every method of the core, indexer, management and block issuer clients with random arguments, against a fake node (as the HTTP transport) which checks method, path, query, headers, credentials and body of every request and answers with generated messages in the form that was asked for; error statuses, broken connections, cancelled contexts, truncated and mutated answers")
		c.Rule("proofs: answers whose output, proof or index does not belong to the requested output, and outputs and transactions which can not exist")
		c.Rule("paging: result sets and validator lists over any number of pages with hostile cursors and failures in between")
		c.Rule("do: requests to any route with bodies and answers of any form and size; large: answers of several megabytes")
		c.Rule("builder: payloads sent through a transaction builder, compared with what a second builder gives")
		c.Rule("new: clients of nodes with random protocol parameters, and of nodes with broken answers")
		c.Rule("concurrent: one client shared by eight goroutines, under the race detector")
		c.Assume("Blocks, transactions and metadata are not tied to the requested IDs by the client; only outputs carry proofs. Protocol parameters of a node which make no protocol are not judged")

		var cls []*nodeClients
		for _, w := range worlds() {
			for v := 0; v < 4; v++ {
				cls = append(cls, newNodeClient(w, v))
			}
		}

		c.Run("calls", c.N(12000, 300000), func(t *Case) { nodeCall(t, cls[t.R.Intn(len(cls))], t.Index%len(calls)) })
		c.Run("proofs", c.N(3000, 60000), func(t *Case) { nodeProof(t, cls[t.R.Intn(len(cls))]) })
		c.Run("paging", c.N(2000, 40000), func(t *Case) { nodePaging(t, cls[t.R.Intn(len(cls))]) })
		c.Run("single", c.N(1000, 20000), func(t *Case) { nodeSingle(t, cls[t.R.Intn(len(cls))]) })
		c.Run("plugins", c.N(500, 5000), func(t *Case) { nodePlugins(t, cls[t.R.Intn(len(cls))]) })
		c.Run("do", c.N(1500, 30000), func(t *Case) { nodeDo(t, cls[t.R.Intn(len(cls))]) })
		c.Run("large", c.N(8, 120), func(t *Case) { nodeLarge(t, cls[t.R.Intn(len(cls))]) })
		c.Run("builder", c.N(600, 12000), func(t *Case) { nodeBuilder(t, cls) })
		c.Run("new", c.N(200, 3000), func(t *Case) { nodeNew(t) })
		c.RunSerial("concurrent", c.N(20, 300), func(t *Case) {
			cl := cls[t.R.Intn(len(cls))]
			var wg sync.WaitGroup
			for g := 0; g < 8; g++ {
				sub := &Case{Ctx: t.Ctx, Family: t.Family, Index: t.Index, R: rand.New(rand.NewSource(t.R.Int63()))}
				wg.Add(1)
				go func() {
					defer wg.Done()
					sub.guard(func() {
						for i := 0; i < 8; i++ {
							nodeCall(sub, cl, sub.R.Intn(len(calls)))
						}
					})
				}()
			}
			wg.Wait()
			t.Count("concurrent rounds")
		})
	})
}

var hangup = errors.New("connection reset by the test")

func nodeCall(t *Case, nc *nodeClients, which int) {
	r := t.R
	cl := calls[which](t, nc.w)
	if cl == nil {
		t.Eval("")

		return
	}
	s := &nodeSession{expect: cl.expect}
	if cl.routes {
		s.routes = allRoutes
	}
	ctx, cancel := context.WithCancel(s.ctx())
	defer cancel()
	mode := r.Intn(8)
	at := r.Intn(len(cl.expect))
	ex := cl.expect[at]
	run := func() (got any, err error) { return cl.do(ctx, nc.cl) }
	switch {
	case mode < 4:
		got, err := run()
		s.finish(t, cl.name, true)
		t.Eval("calls/" + cl.name + "/ok")
		t.Count("call " + cl.name)
		if t.Check(err == nil, "call:"+cl.name, "error: %v", err) {
			g := same(got)
			t.Check(g == cl.want, "result:"+cl.name, "another result than the node gave: %s", firstDiff(g, cl.want))
		}
	case mode == 4: // error status
		ex.status = statusCodes[r.Intn(len(statusCodes))]
		text := "reason " + rascii(r, 5)
		told := false
		ex.json = nil
		switch r.Intn(6) {
		case 0, 1:
			ex.json = []byte(`{"error":{"code":"` + strconv.Itoa(ex.status) + `","message":` + jstr(text) + `}}`)
			told = true
		case 2:
			ex.json = []byte("<html>" + text + "</html>")
		case 3:
			ex.json = []byte([]string{"[]", "null", "0", `{"error":"x"}`, `{"error":null}`, "{", `{"error":{"code":400}}`}[r.Intn(7)])
		}
		for _, later := range cl.expect[at+1:] {
			later.check = nil
		}
		got, err := run()
		s.finish(t, cl.name, false)
		t.Eval("calls/" + cl.name + "/" + itoa(ex.status))
		t.Count("error statuses")
		t.Check(s.pos <= at+1, "after-error:"+cl.name, "the client went on after status %d", ex.status)
		if (cl.name == "Health" || cl.name == "NetworkHealth") && ex.status == 503 {
			t.Check(err == nil && got == false, "unhealthy:"+cl.name, "status 503 gives %v, %v", got, err)

			return
		}
		if cl.name == "Health" || cl.name == "NetworkHealth" {
			t.Check(got == false, "unhealthy:"+cl.name, "status %d gives %v", ex.status, got)
		}
		if t.Check(err != nil, "status:"+cl.name, "status %d is no error", ex.status) {
			checkStatusError(t, cl.name, ex.status, err)
			t.Check(!told || strings.Contains(err.Error(), text), "status-message:"+cl.name, "the message %q is not in %q", text, err)
		}
	case mode == 5: // broken connection, cancelled context
		var want error
		kind := r.Intn(3)
		if kind == 1 && cl.empty {
			kind = 0
		}
		switch kind {
		case 0:
			ex.hangup = hangup
			want = hangup
		case 1:
			ex.hangup, ex.midway = hangup, true
			want = hangup
		case 2:
			cancel()
			want = context.Canceled
		}
		_, err := run()
		s.finish(t, cl.name, false)
		t.Eval(fmt.Sprint("calls/", cl.name, "/broken/", kind))
		t.Count("broken connections")
		t.Check(errors.Is(err, want), "broken:"+cl.name, "kind %d gives %v", kind, err)
	case mode == 6: // truncated answers
		if cl.empty {
			t.Eval("")

			return
		}
		ex.json = ex.json[:r.Intn(len(ex.json))]
		if len(ex.raw) > 0 {
			ex.raw = ex.raw[:r.Intn(len(ex.raw))]
		}
		if coin(r, 6) {
			ex.json, ex.raw = nil, nil
		}
		_, err := run()
		s.finish(t, cl.name, false)
		t.Eval("calls/" + cl.name + "/truncated")
		t.Count("truncated answers")
		t.Check(err != nil, "truncated:"+cl.name, "a truncated answer gives no error")
	case mode == 7: // nonsense
		if len(ex.json) > 0 {
			ex.json = mutateJSON(r, append([]byte{}, ex.json...))
		}
		ex.raw = append([]byte{}, ex.raw...)
		n := len(ex.raw)
		if strings.Contains(cl.name, "Block") || strings.Contains(cl.name, "Transaction") {
			// only the head: a wrong length of tagged data makes the decoder reserve gigabytes (known finding of P02)
			n = min(n, 12)
		}
		for i := 0; i < 1+r.Intn(3) && n > 0; i++ {
			ex.raw[r.Intn(n)] = byte(r.Intn(256))
		}
		if cl.name == "SubmitBlock" {
			ex.header = http.Header{"Location": {[]string{"", "0x", "0x00", "zz", hx(rbytes(r, 35)), hx(rbytes(r, 37))}[r.Intn(6)]}}
		}
		if coin(r, 8) {
			ex.status = 204
		}
		if cl.name == "SendPayload" { // the node may have asked for more work than anyone can do
			defer time.AfterFunc(time.Second, cancel).Stop()
		}
		got, err := run()
		s.mu.Lock()
		s.problems = nil // later requests follow what the node said
		s.mu.Unlock()
		s.finish(t, cl.name, false)
		t.Eval(fmt.Sprint("calls/", cl.name, "/nonsense/", err == nil))
		t.Count("nonsense answers")
		switch cl.name {
		case "SubmitBlock":
			t.Check(err != nil, "nonsense:"+cl.name, "no error for location %q", ex.header)
		case "OutputByID":
			if err == nil {
				g := same(got)
				t.Check(g == cl.want, "nonsense:"+cl.name, "an output which does not belong to the ID was returned: %s", firstDiff(g, cl.want))
			}
		case "OutputWithMetadataByID":
			if err == nil {
				g, w := same(got.(outMeta).Output), cl.want[len("outMeta{Output:"):]
				t.Check(strings.HasPrefix(w, g), "nonsense:"+cl.name, "an output which does not belong to the ID was returned: %s", firstDiff(g, w))
			}
		}
	}
}

func nodeProof(t *Case, nc *nodeClients) {
	r, w := t.R, nc.w
	tx := genValidTx(r, w)
	i := r.Intn(len(tx.Outputs))
	id := refOutputID(refTxID(tx), uint16(i))
	o := tx.Outputs[i]
	p, err := iotago.OutputIDProofFromTransaction(tx, uint16(i))
	if err != nil {
		panic(err)
	}
	how := ""
	switch r.Intn(7) {
	case 6: // an output of that transaction which can not exist
		how = "malformed"
		f, _ := listField(o, "UnlockConditions")
		if coin(r, 2) {
			f.Set(f.Slice3(0, 0, 0)) // owned by nobody
		} else {
			l := reflect.MakeSlice(f.Type(), 0, 9)
			for l.Len() < 5+r.Intn(4) {
				l = reflect.Append(l, f.Index(r.Intn(f.Len())))
			}
			f.Set(l)
		}
		if p, err = iotago.OutputIDProofFromTransaction(tx, uint16(i)); err != nil {
			t.Count("malformed outputs without a proof")
			t.Eval("")

			return
		}
		id = refOutputID(refTxID(tx), uint16(i))
		if coin(r, 3) {
			s := &nodeSession{expect: []*exchange{{method: "GET", path: corePath + "/transactions/" + hx(id[:36]), status: 200, json: []byte("{}"), raw: refTx(tx)}}}
			got, err := nc.cl.TransactionByID(s.ctx(), iotago.TransactionID(id[:36]))
			s.finish(t, "TransactionByID", true)
			t.Eval(fmt.Sprint("proofs/transaction", len(tx.Outputs)))
			t.Count("malformed transactions")
			t.Check(err != nil, "transaction:malformed", "the client returned %s", dump(got))

			return
		}
	case 0: // another output of the same transaction with its own proof
		how = "sibling"
		if len(tx.Outputs) < 2 {
			t.Eval("")

			return
		}
		j := (i + 1 + r.Intn(len(tx.Outputs)-1)) % len(tx.Outputs)
		o = tx.Outputs[j]
		if p, err = iotago.OutputIDProofFromTransaction(tx, uint16(j)); err != nil {
			panic(err)
		}
	case 1: // another output with the proof of the requested one
		how = "swapped"
		other := genValidTx(r, w)
		o = other.Outputs[r.Intn(len(other.Outputs))]
		if bytes.Equal(refOutput(o), refOutput(tx.Outputs[i])) {
			t.Eval("")

			return
		}
	case 2: // an output of another transaction with its own proof
		how = "foreign"
		var oid iotago.OutputID
		oid, o, p = provenOutput(r, w)
		if oid == id {
			t.Eval("")

			return
		}
	case 3: // the same output with another amount
		how = "amount"
		b := append([]byte{}, refOutput(o)...)
		b[1+r.Intn(3)] ^= 1 << r.Intn(8)
		c := o.Clone()
		back, err := decOutput(w, b)
		if err != nil || bytes.Equal(refOutput(back), refOutput(c)) {
			t.Eval("")

			return
		}
		o = back
	case 4: // another index, slot or transaction commitment
		how = "fields"
		q := *p
		switch r.Intn(3) {
		case 0:
			q.OutputIndex ^= uint16(1 + r.Intn(3))
		case 1:
			q.Slot ^= iotago.SlotIndex(1 << r.Intn(32))
		case 2:
			q.TransactionCommitment[r.Intn(32)] ^= 1 << r.Intn(8)
		}
		p = &q
	case 5: // an honest answer to another request
		how = "other-request"
		id[r.Intn(38)] ^= 1 << r.Intn(8)
	}
	full := coin(r, 2)
	ex := outputAnswer(w, id, o, p)
	if full {
		ex.path += "/full"
		ex.raw = append(append([]byte{}, ex.raw...), apiBin(reflect.ValueOf(genAPI[api.OutputMetadata](r, w)), "", "")...)
	}
	s := &nodeSession{expect: []*exchange{ex}}
	var got iotago.Output
	if full {
		got, _, err = nc.cl.OutputWithMetadataByID(s.ctx(), id)
	} else {
		got, err = nc.cl.OutputByID(s.ctx(), id)
	}
	s.finish(t, "OutputByID", true)
	t.Eval(fmt.Sprint("proofs/", how, full, len(tx.Outputs)))
	t.Count("wrong proofs: " + how)
	t.Check(err != nil, "proof:"+how, "the client returned %s for output %s", dump(got), id.ToHex())
}

func decOutput(w *World, b []byte) (iotago.TxEssenceOutput, error) {
	var o iotago.TxEssenceOutput
	n, err := w.API.Decode(b, &o)
	if err == nil && n != len(b) {
		err = errors.New("trailing bytes")
	}

	return o, err
}

// queryOf makes a query of a random kind with its route and expected parameters.
func queryOf(r *rand.Rand) (q nodeclient.IndexerQuery, path string, want url.Values) {
	want = url.Values{}
	str := func(name string, p *string) {
		if coin(r, 3) {
			*p = genCursor(r)
			want.Set(name, *p)
		}
	}
	slot := func(name string, p *iotago.SlotIndex) {
		if coin(r, 3) {
			*p = iotago.SlotIndex(1 + ru32(r)%(1<<32-1))
			want.Set(name, fmt.Sprint(uint32(*p)))
		}
	}
	flag := func(name string, p **bool) {
		if coin(r, 3) {
			b := coin(r, 2)
			*p = &b
			want.Set(name, strconv.FormatBool(b))
		}
	}
	cursor := func(p *api.IndexerCursorParams) {
		if coin(r, 3) {
			p.PageSize = 1 + r.Intn(1000)
			want.Set("pageSize", itoa(p.PageSize))
		}
		if coin(r, 4) {
			c := genCursor(r)
			p.Cursor = &c
			want.Set("cursor", c)
		}
	}
	timelock := func(p *api.IndexerTimelockParams) {
		flag("hasTimelock", &p.HasTimelock)
		slot("timelockedBefore", &p.TimelockedBefore)
		slot("timelockedAfter", &p.TimelockedAfter)
	}
	expiration := func(p *api.IndexerExpirationParams) {
		flag("hasExpiration", &p.HasExpiration)
		slot("expiresBefore", &p.ExpiresBefore)
		slot("expiresAfter", &p.ExpiresAfter)
		str("expirationReturnAddress", &p.ExpirationReturnAddressBech32)
	}
	creation := func(p *api.IndexerCreationParams) {
		slot("createdBefore", &p.CreatedBefore)
		slot("createdAfter", &p.CreatedAfter)
	}
	deposit := func(p *api.IndexerStorageDepositParams) {
		flag("hasStorageDepositReturn", &p.HasStorageDepositReturn)
		str("storageDepositReturnAddress", &p.StorageDepositReturnAddressBech32)
	}
	native := func(p *api.IndexerNativeTokenParams) {
		flag("hasNativeToken", &p.HasNativeToken)
		str("nativeToken", &p.NativeToken)
	}
	unlockable := func(p *api.IndexerUnlockableByAddressParams) {
		str("unlockableByAddress", &p.UnlockableByAddressBech32)
	}
	path = "/api/indexer/v2/outputs"
	switch r.Intn(7) {
	case 0:
		x := &api.OutputsQuery{}
		cursor(&x.IndexerCursorParams)
		native(&x.IndexerNativeTokenParams)
		creation(&x.IndexerCreationParams)
		unlockable(&x.IndexerUnlockableByAddressParams)

		return x, path, want
	case 1:
		x := &api.BasicOutputsQuery{}
		cursor(&x.IndexerCursorParams)
		timelock(&x.IndexerTimelockParams)
		expiration(&x.IndexerExpirationParams)
		creation(&x.IndexerCreationParams)
		deposit(&x.IndexerStorageDepositParams)
		native(&x.IndexerNativeTokenParams)
		unlockable(&x.IndexerUnlockableByAddressParams)
		str("address", &x.AddressBech32)
		str("sender", &x.SenderBech32)
		str("tag", &x.Tag)

		return x, path + "/basic", want
	case 2:
		x := &api.AccountsQuery{}
		cursor(&x.IndexerCursorParams)
		creation(&x.IndexerCreationParams)
		unlockable(&x.IndexerUnlockableByAddressParams)
		str("address", &x.AddressBech32)
		str("sender", &x.SenderBech32)
		str("issuer", &x.IssuerBech32)

		return x, path + "/account", want
	case 3:
		x := &api.AnchorsQuery{}
		cursor(&x.IndexerCursorParams)
		creation(&x.IndexerCreationParams)
		unlockable(&x.IndexerUnlockableByAddressParams)
		str("stateController", &x.StateControllerBech32)
		str("governor", &x.GovernorBech32)
		str("issuer", &x.IssuerBech32)

		return x, path + "/anchor", want
	case 4:
		x := &api.FoundriesQuery{}
		cursor(&x.IndexerCursorParams)
		creation(&x.IndexerCreationParams)
		native(&x.IndexerNativeTokenParams)
		str("accountAddress", &x.AccountAddressBech32)

		return x, path + "/foundry", want
	case 5:
		x := &api.NFTsQuery{}
		cursor(&x.IndexerCursorParams)
		timelock(&x.IndexerTimelockParams)
		expiration(&x.IndexerExpirationParams)
		deposit(&x.IndexerStorageDepositParams)
		creation(&x.IndexerCreationParams)
		unlockable(&x.IndexerUnlockableByAddressParams)
		str("address", &x.AddressBech32)
		str("sender", &x.SenderBech32)
		str("issuer", &x.IssuerBech32)
		str("tag", &x.Tag)

		return x, path + "/nft", want
	default:
		x := &api.DelegationOutputsQuery{}
		cursor(&x.IndexerCursorParams)
		creation(&x.IndexerCreationParams)
		str("address", &x.AddressBech32)
		str("validator", &x.ValidatorBech32)

		return x, path + "/delegation", want
	}
}

func withCursor(q url.Values, cursor string) url.Values {
	out := url.Values{}
	for k, v := range q {
		out[k] = v
	}
	if cursor != "" {
		out.Set("cursor", cursor)
	}

	return out
}

func nodePaging(t *Case, nc *nodeClients) {
	r, w := t.R, nc.w
	pages := rlen(r, 1, 6)
	failAt := -1
	if coin(r, 4) {
		failAt = r.Intn(pages)
	}
	fail := statusCodes[r.Intn(len(statusCodes))]
	s := &nodeSession{}
	if coin(r, 2) { // all validators
		var want []*api.ValidatorResponse
		cursor := ""
		maxPages := -1
		if coin(r, 2) {
			maxPages = r.Intn(pages + 2)
		}
		asked := pages
		if maxPages >= 0 {
			asked = min(pages, max(1, maxPages))
		}
		for i := 0; i < asked; i++ {
			res := genAPI[api.ValidatorsResponse](r, w)
			res.Cursor = ""
			if i < pages-1 {
				res.Cursor = genCursor(r)
			}
			q := withCursor(url.Values{}, cursor)
			cursor = res.Cursor
			ex := &exchange{method: "GET", path: corePath + "/validators", query: q, status: 200, json: []byte(apiJSON(r, w, reflect.ValueOf(res)))}
			s.expect = append(s.expect, ex)
			want = append(want, res.Validators...)
			if i == failAt {
				ex.status, ex.json = fail, nil

				break
			}
		}
		var opt []int
		if maxPages >= 0 {
			opt = append(opt, maxPages)
		}
		got, all, err := nc.cl.ValidatorsAll(s.ctx(), opt...)
		s.finish(t, "ValidatorsAll", true)
		t.Eval(fmt.Sprint("paging/validators/", pages, maxPages, failAt))
		t.Count("validator lists")
		if failAt >= 0 && failAt < asked {
			checkStatusError(t, "ValidatorsAll", fail, err)

			return
		}
		if t.Check(err == nil, "paging:ValidatorsAll", "error %v", err) {
			g, e := same(got.Validators), same(want)
			t.Check(g == e, "paging:ValidatorsAll", "the list differs: %s", firstDiff(g, e))
			t.Check(all == (asked == pages), "paging:allRetrieved", "allRetrieved is %v after %d of %d pages", all, asked, pages)
		}

		return
	}
	q, path, params := queryOf(r)
	urlParams, err := q.URLParams()
	if t.Check(err == nil, "paging:URLParams", "URLParams: %v", err) {
		v, perr := url.ParseQuery(urlParams)
		t.Check(perr == nil && reflect.DeepEqual(v, params), "paging:params", "URLParams gives %s, expected %v", urlParams, params)
	}
	type page struct {
		items iotago.HexOutputIDs
		outs  []iotago.Output
		slot  iotago.SlotIndex
	}
	var want []page
	cursor := ""
	fetch := coin(r, 2)
	for i := 0; i < pages; i++ {
		res := &api.IndexerResponse{CommittedSlot: iotago.SlotIndex(ru32(r)), PageSize: ru32(r)}
		var outs []*exchange
		pg := page{slot: res.CommittedSlot}
		n := 1 + r.Intn(2)
		if i == pages-1 && coin(r, 3) {
			n = 0
		}
		for k := 0; k < n; k++ {
			id, o, ex := outputExchange(r, w)
			res.Items = append(res.Items, iotago.HexOutputID(hx(id[:])))
			outs = append(outs, ex)
			pg.outs = append(pg.outs, o)
		}
		pg.items = res.Items
		if i < pages-1 {
			res.Cursor = genCursor(r)
		}
		ex := &exchange{method: "GET", path: path, query: withCursor(params, cursor), status: 200, json: []byte(apiJSON(r, w, reflect.ValueOf(res)))}
		cursor = res.Cursor
		s.expect = append(s.expect, ex)
		if i == failAt {
			ex.status, ex.json = fail, nil

			break
		}
		if fetch && n > 0 {
			s.expect = append(s.expect, outs...)
		}
		want = append(want, pg)
	}
	s.routes = allRoutes
	ix, err := nc.cl.Indexer(s.ctx())
	if !t.Check(err == nil, "paging:Indexer", "Indexer: %v", err) {
		return
	}
	rs, err := ix.Outputs(s.ctx(), q)
	if !t.Check(err == nil, "paging:Outputs", "Outputs: %v", err) {
		return
	}
	var got []page
	for rs.Next() {
		pg := page{items: rs.Response.Items, slot: rs.Response.CommittedSlot}
		if fetch {
			outs, err := rs.Outputs(s.ctx())
			if !t.Check(err == nil, "paging:fetch", "Outputs: %v", err) {
				return
			}
			pg.outs = outs
		}
		got = append(got, pg)
		if len(got) > pages {
			break
		}
	}
	s.finish(t, "IndexerResultSet", true)
	t.Eval(fmt.Sprint("paging/", path, pages, failAt, fetch))
	t.Count("result sets")
	if failAt >= 0 {
		checkStatusError(t, "IndexerResultSet", fail, rs.Error)
	} else {
		t.Check(rs.Error == nil, "paging:error", "error %v", rs.Error)
	}
	if len(want) > 0 && len(want[len(want)-1].items) == 0 {
		want = want[:len(want)-1] // an empty last page ends the loop
	}
	if !t.Check(len(got) == len(want), "paging:pages", "%d pages, expected %d", len(got), len(want)) {
		return
	}
	for i := range got {
		g, e := same(got[i].items), same(want[i].items)
		t.Check(g == e && got[i].slot == want[i].slot, "paging:items", "page %d differs: %s", i, firstDiff(g, e))
		if fetch {
			g, e := same(got[i].outs), same(want[i].outs)
			t.Check(g == e, "paging:outputs", "outputs of page %d differ: %s", i, firstDiff(g, e))
		}
	}
	pos := s.pos
	if failAt < 0 {
		t.Check(!rs.Next() && s.pos == pos && len(s.problems) == 0, "paging:goes-on", "Next goes on after the last page")
	}
}

// nodeSingle: queries for one output which find none, a malformed ID, or an output of another type.
func nodeSingle(t *Case, nc *nodeClients) {
	r, w := t.R, nc.w
	a := iotago.AccountAddress(r32(r))
	an := iotago.AnchorAddress(a)
	nf := iotago.NFTAddress(a)
	fid := genFoundryID(r)
	did := iotago.DelegationID(a)
	k := r.Intn(5)
	typ := []iotago.OutputType{iotago.OutputAccount, iotago.OutputAnchor, iotago.OutputFoundry, iotago.OutputNFT, iotago.OutputDelegation}[k]
	path := "/api/indexer/v2/outputs/" + []string{"account/" + refBech32(w, &a), "anchor/" + refBech32(w, &an), "foundry/" + hx(fid[:]), "nft/" + refBech32(w, &nf), "delegation/" + hx(did[:])}[k]
	res := &api.IndexerResponse{CommittedSlot: iotago.SlotIndex(ru32(r)), PageSize: 1}
	s := &nodeSession{routes: allRoutes}
	how := []string{"none", "malformed", "type"}[r.Intn(3)]
	ex := &exchange{method: "GET", path: path, status: 200}
	s.expect = []*exchange{ex}
	switch how {
	case "malformed":
		res.Items = iotago.HexOutputIDs{iotago.HexOutputID([]string{"", "0x", "0x00", "zz", hx(rbytes(r, 37)), hx(rbytes(r, 39)), hx(rbytes(r, 38))[2:], hx(rbytes(r, 38)) + "g"}[r.Intn(8)])}
	case "type":
		var id iotago.OutputID
		var o iotago.TxEssenceOutput
		var oex *exchange
		for {
			if id, o, oex = outputExchange(r, w); o.Type() != typ {
				break
			}
		}
		res.Items = iotago.HexOutputIDs{iotago.HexOutputID(hx(id[:]))}
		s.expect = append(s.expect, oex)
	}
	ex.json = []byte(apiJSON(r, w, reflect.ValueOf(res)))
	ix, err := nc.cl.Indexer(s.ctx())
	if !t.Check(err == nil, "single:Indexer", "Indexer: %v", err) {
		return
	}
	var id *iotago.OutputID
	var o iotago.Output
	ctx := s.ctx()
	switch k {
	case 0:
		id, o, _, err = wrap3(ix.Account(ctx, &a))
	case 1:
		id, o, _, err = wrap3(ix.Anchor(ctx, &an))
	case 2:
		id, o, _, err = wrap3(ix.Foundry(ctx, fid))
	case 3:
		id, o, _, err = wrap3(ix.NFT(ctx, &nf))
	case 4:
		id, o, _, err = wrap3(ix.Delegation(ctx, did))
	}
	s.finish(t, "single", true)
	t.Eval(fmt.Sprint("single/", how, k, len(res.Items)))
	t.Count("single queries: " + how)
	t.Check(err != nil, "single:"+how, "no error, output %v %s", id, dump(o))
	t.Check(errors.Is(err, nodeclient.ErrIndexerNotFound) == (how == "none"), "single:"+how, "error %v", err)
}

func nodePlugins(t *Case, nc *nodeClients) {
	r := t.R
	s := &nodeSession{routes: []string{"core/v3"}}
	has := map[string]bool{}
	for _, p := range append(allRoutes[1:], "indexer/v1", "mqtt/v1", "blockissuer/v2", "management/v2", "blockissuer", "x/indexer/v2", "indexer/v20", "mqtt/v2/x", "blockissuer/v1x", "management/v1/", "INDEXER/v2") {
		if coin(r, 2) {
			s.routes = append(s.routes, p)
			has[p] = true
		}
	}
	r.Shuffle(len(s.routes), func(i, j int) { s.routes[i], s.routes[j] = s.routes[j], s.routes[i] })
	ctx := s.ctx()
	_, e1 := nc.cl.Management(ctx)
	_, e2 := nc.cl.Indexer(ctx)
	_, e3 := nc.cl.EventAPI(ctx)
	_, e4 := nc.cl.BlockIssuer(ctx)
	for _, x := range []struct {
		plugin string
		err    error
		want   error
	}{
		{"management/v1", e1, nodeclient.ErrManagementPluginNotAvailable}, {"indexer/v2", e2, nodeclient.ErrIndexerPluginNotAvailable},
		{"mqtt/v2", e3, nodeclient.ErrMQTTPluginNotAvailable}, {"blockissuer/v1", e4, nodeclient.ErrBlockIssuerPluginNotAvailable},
	} {
		t.Check(has[x.plugin] == (x.err == nil) && (x.err == nil || errors.Is(x.err, x.want)), "plugin:"+x.plugin, "the node has %v, error %v", s.routes, x.err)
		ok, err := nc.cl.NodeSupportsRoute(ctx, x.plugin)
		t.Check(err == nil && ok == has[x.plugin], "plugin:"+x.plugin, "NodeSupportsRoute gives %v, %v; the node has %v", ok, err, s.routes)
	}
	s.finish(t, "plugins", true)
	// endpoints with parameters
	ep, echo, filled := "", "", ""
	p, v := hexOfLen(r, 3), hexOfLen(r, 5)
	at := r.Intn(4)
	for i := 0; i < 4; i++ {
		x := hexOfLen(r, 1+r.Intn(3))
		if q := "y" + hexOfLen(r, 4); i == at {
			ep, echo, filled = ep+"/"+x+"/{"+p+"}", echo+"/"+x+"/:"+p, filled+"/"+x+"/"+v
		} else if coin(r, 2) {
			ep, echo, filled = ep+"/{"+q+"}", echo+"/:"+q, filled+"/{"+q+"}"
		} else {
			ep, echo, filled = ep+"/"+q, echo+"/"+q, filled+"/"+q
		}
	}
	t.Check(api.EndpointWithEchoParameters(ep) == echo, "endpoint:echo", "%s gives %s", ep, api.EndpointWithEchoParameters(ep))
	t.Check(api.EndpointWithNamedParameterValue(ep, p, v) == filled, "endpoint:value", "%s of %s gives %s", p, ep, api.EndpointWithNamedParameterValue(ep, p, v))
	t.Eval(fmt.Sprint("plugins/", s.routes))
}

// nodeDo sends requests to routes of its own.
func nodeDo(t *Case, nc *nodeClients) {
	r, w := t.R, nc.w
	do, doHook := nc.cl.Do, nc.cl.DoWithRequestHeaderHook
	e := &exchange{method: []string{"GET", "POST", "PUT", "DELETE"}[r.Intn(4)], path: "/api/" + rascii(r, 1+r.Intn(10)) + "/v1", status: 200}
	e.path = (&url.URL{Path: e.path}).EscapedPath()
	name := "Do"
	s := &nodeSession{expect: []*exchange{e}}
	var req, res any
	var wantBody []byte
	wantType := ""
	switch r.Intn(3) {
	case 0:
		b := rbytes(r, 1+r.Intn(400))
		req, wantBody, wantType = &nodeclient.RawDataEnvelope{Data: b}, b, mimeRaw
	case 1:
		o := genAPI[api.UTXOChangesResponse](r, w)
		req, wantBody, wantType = o, []byte(apiJSON(r, w, reflect.ValueOf(o))), mimeJSON
	}
	hook, hk, hv := coin(r, 2), "X-"+hexOfLen(r, 4), hexOfLen(r, 6)
	e.check = func(q *nodeRequest) string {
		switch {
		case q.ctype != wantType:
			return fmt.Sprintf("content type %q, expected %q", q.ctype, wantType)
		case wantType == mimeRaw && !bytes.Equal(q.body, wantBody):
			return fmt.Sprintf("body %x, expected %x", q.body, wantBody)
		case wantType == mimeJSON && !sameJSON(q.body, wantBody):
			return fmt.Sprintf("body %s, expected %s", q.body, wantBody)
		case wantType == "" && len(q.body) > 0:
			return fmt.Sprintf("body %x, expected none", q.body)
		case hook && q.header.Get(hk) != hv:
			return fmt.Sprintf("header %s is %q, expected %q", hk, q.header.Get(hk), hv)
		}

		return ""
	}
	body := rbytes(r, 1+r.Intn(3000))
	obj := genAPI[api.CommitteeResponse](r, w)
	e.json = body
	form := r.Intn(3)
	var earlier []byte // what an earlier call left in the envelope
	if coin(r, 2) {
		earlier = rbytes(r, r.Intn(4000))
	}
	kept := slices.Clone(earlier)
	switch form {
	case 0:
		res = &nodeclient.RawDataEnvelope{Data: earlier}
	case 1:
		e.json = []byte(apiJSON(r, w, reflect.ValueOf(obj)))
		res = &api.CommitteeResponse{}
	}
	if coin(r, 3) {
		e.status = 201
	}
	e.header = http.Header{"X-Answer": {hv}}
	var hres *http.Response
	var err error
	if hook {
		hres, err = doHook(s.ctx(), e.method, e.path, func(h http.Header) { h.Set(hk, hv) }, req, res)
	} else {
		hres, err = do(s.ctx(), e.method, e.path, req, res)
	}
	s.finish(t, name, true)
	t.Eval(fmt.Sprint("do/", name, e.method, wantType, form, hook))
	if !t.Check(err == nil && hres != nil, "do:"+name, "%s %s: %v", e.method, e.path, err) {
		return
	}
	t.Check(hres.StatusCode == e.status && hres.Header.Get("X-Answer") == hv, "do:response", "status %d, header %q", hres.StatusCode, hres.Header.Get("X-Answer"))
	switch form {
	case 0:
		got := res.(*nodeclient.RawDataEnvelope).Data
		t.Check(bytes.Equal(earlier, kept), "do:raw-earlier", "the bytes which an earlier call left in the envelope are overwritten")
		t.Check(bytes.Equal(got, body), "do:raw", "%d bytes %x, the node gave %d bytes %x", len(got), got, len(body), body)
	case 1:
		g, want := same(res), same(obj)
		t.Check(g == want, "do:json", "another result than the node gave: %s", firstDiff(g, want))
	}
}

// nodeLarge: answers of several megabytes arrive complete.
func nodeLarge(t *Case, nc *nodeClients) {
	r, w := t.R, nc.w
	if t.Index%2 == 0 {
		body := rbytes(r, 1<<20<<uint(r.Intn(4))+r.Intn(1000))
		res := &nodeclient.RawDataEnvelope{}
		s := &nodeSession{expect: []*exchange{{method: "GET", path: "/large", status: 200, json: body, raw: body}}}
		_, err := nc.cl.Do(s.ctx(), "GET", "/large", nil, res)
		s.finish(t, "large", true)
		t.Check(err == nil && bytes.Equal(res.Data, body), "large:raw", "%d of %d bytes arrived: %v", len(res.Data), len(body), err)
		t.Eval(fmt.Sprint("large/raw/", len(body)>>20))

		return
	}
	id := iotago.CommitmentID(rid36(r))
	obj := &api.UTXOChangesResponse{CommitmentID: id}
	for i := 12000 + r.Intn(60000); i > 0; i-- {
		o := genOutputID(r)
		if coin(r, 2) {
			obj.CreatedOutputs = append(obj.CreatedOutputs, o)
		} else {
			obj.ConsumedOutputs = append(obj.ConsumedOutputs, o)
		}
	}
	s := &nodeSession{expect: []*exchange{{method: "GET", path: corePath + "/commitments/" + hx(id[:]) + "/utxo-changes", status: 200, json: []byte(apiJSON(r, w, reflect.ValueOf(obj))), raw: apiBin(reflect.ValueOf(obj), "", "")}}}
	got, err := nc.cl.CommitmentUTXOChangesByID(s.ctx(), id)
	s.finish(t, "large", true)
	if t.Check(err == nil, "large:utxo-changes", "%d outputs: %v", len(obj.CreatedOutputs)+len(obj.ConsumedOutputs), err) {
		t.Check(slices.Equal(got.CreatedOutputs, obj.CreatedOutputs) && slices.Equal(got.ConsumedOutputs, obj.ConsumedOutputs), "large:utxo-changes", "%d and %d outputs of %d and %d", len(got.CreatedOutputs), len(got.ConsumedOutputs), len(obj.CreatedOutputs), len(obj.ConsumedOutputs))
	}
	t.Eval(fmt.Sprint("large/utxo/", (len(obj.CreatedOutputs)+len(obj.ConsumedOutputs))/12000))
}

// nodeBuilder sends a payload through a transaction builder.
func nodeBuilder(t *Case, cls []*nodeClients) {
	r := t.R
	g := genVM(r, func(g *vmGen) { g.mvAccountState() }, (*vmGen).mvImplicit, (*vmGen).mvAccountGenesis)
	if g.create < g.commit {
		t.Eval("")

		return
	}
	g.hasCommit = true
	g.allot = map[iotago.AccountID]uint64{}
	var sinks []int
	for i, o := range g.outs {
		refSetMana(o, 1)
		if refStoredMana(o) == 1 && ucsAllow(o) {
			sinks = append(sinks, i)
		}
		refSetMana(o, 0)
	}
	sc := g.assemble()
	targets, problem := builderPlan(sc, keyKnown(g.keys))
	if len(sinks) == 0 || targets == nil || problem != "" || vmUndecided(sc) != "" {
		t.Eval("")

		return
	}
	var nc *nodeClients
	for k := r.Intn(len(cls)); nc == nil; k++ {
		if cls[k%len(cls)].w.Name == sc.w.Name {
			nc = cls[k%len(cls)]
		}
	}
	w := sc.w
	b := fillBuilder(t, sc, targets, signerOf(t, g.keys), true)
	create := sc.stx.Transaction.CreationSlot
	cm := genCommitment(r)
	cm.ReferenceManaCost = iotago.Mana(r.Intn(4))
	if coin(r, 8) {
		cm.ReferenceManaCost = iotago.Mana(ru64(r))
	}
	mode := "slot set"
	if coin(r, 2) { // the slot of the latest commitment becomes the creation slot
		mode = "slot not set"
		cm.Slot = create
		if coin(r, 5) {
			cm.Slot += iotago.SlotIndex(r.Intn(3))
		}
		b.SetCreationSlot(0)
	}
	idx := sinks[r.Intn(len(sinks))]
	if coin(r, 12) {
		idx = r.Intn(len(g.outs) + 2)
	}
	issuer := iotago.AccountID(r32(r))
	if av := availableMana(sc, create); !av.bad && coin(r, 2) {
		for _, o := range g.outs {
			if ao, is := o.(*iotago.AccountOutput); is && ao.AccountID != (iotago.AccountID{}) {
				issuer = ao.AccountID
			}
		}
	}
	info := &api.BlockIssuerInfo{BlockIssuerAddress: refBech32(w, issuer.ToAddress()), PowTargetTrailingZeros: uint8(r.Intn(9))}
	badIssuer := ""
	if coin(r, 8) {
		switch r.Intn(4) {
		case 0:
			info.BlockIssuerAddress, badIssuer = "", "empty"
		case 1:
			info.BlockIssuerAddress, badIssuer = rascii(r, rlen(r, 0, 80)), "text"
		case 2:
			a := genAnyAddr(r)
			if _, is := a.(*iotago.AccountAddress); !is {
				info.BlockIssuerAddress, badIssuer = refBech32(w, a), "kind"
			}
		case 3:
			c := []byte(info.BlockIssuerAddress)
			c[len(c)-1-r.Intn(30)] = 'b'
			info.BlockIssuerAddress, badIssuer = string(c), "checksum"
		}
	}
	// the reference
	ref := b.Clone()
	if ref.CreationSlot() == 0 {
		ref.SetCreationSlot(cm.Slot)
	}
	ref.AllotMinRequiredManaAndStoreRemainingManaInOutput(ref.CreationSlot(), cm.ReferenceManaCost, issuer, idx)
	want, wantErr := ref.Build()
	iss := genAPI[api.IssuanceBlockHeaderResponse](r, w)
	iss.LatestCommitment = cm
	cid := refCommitmentID(cm)
	res := genAPI[api.BlockCreatedResponse](r, w)
	s := &nodeSession{routes: allRoutes, expect: []*exchange{
		{method: "GET", path: "/api/blockissuer/v1/info", status: 200, json: []byte(apiJSON(r, w, reflect.ValueOf(info))), raw: apiBin(reflect.ValueOf(info), "", "")},
	}}
	if badIssuer == "" {
		s.expect = append(s.expect, &exchange{method: "GET", path: corePath + "/blocks/issuance", status: 200, json: []byte(apiJSON(r, w, reflect.ValueOf(iss))), raw: apiBin(reflect.ValueOf(iss), "", "")})
		if wantErr == nil {
			s.expect = append(s.expect, &exchange{method: "POST", path: "/api/blockissuer/v1/issue", status: 201, json: []byte(apiJSON(r, w, reflect.ValueOf(res))), raw: apiBin(reflect.ValueOf(res), "", ""), check: issueBody(refPayload(want), cid, int(info.PowTargetTrailingZeros))})
		}
	}
	fail := -1
	if badIssuer == "" && coin(r, 10) { // nonsense
		if k := r.Intn(4); k == 0 {
			s.expect[r.Intn(2)].status = 204
		} else {
			for ; k > 0; k-- {
				s.expect[1].json = mutateJSON(r, s.expect[1].json)
			}
		}
		if len(s.expect) > 2 {
			s.expect[2].check = nil
		}
		t.Count("builder: nonsense")
		t.Eval("builder/nonsense")
		bi, err := nc.cl.BlockIssuer(s.ctx())
		if err == nil {
			_, _, _ = bi.SendPayloadWithTransactionBuilder(s.ctx(), b, idx, 1)
		}
		s.problems = nil
		s.finish(t, "SendPayloadWithTransactionBuilder", false)

		return
	}
	if coin(r, 6) {
		fail = r.Intn(len(s.expect))
		s.expect = s.expect[:fail+1]
		s.expect[fail].status, s.expect[fail].json = statusCodes[r.Intn(len(statusCodes))], nil
	}
	bi, err := nc.cl.BlockIssuer(s.ctx())
	if !t.Check(err == nil, "builder:BlockIssuer", "BlockIssuer: %v", err) {
		return
	}
	payload, created, err := bi.SendPayloadWithTransactionBuilder(s.ctx(), b, idx, 1+r.Intn(2))
	s.finish(t, "SendPayloadWithTransactionBuilder", true)
	t.Eval(fmt.Sprint("builder/", mode, badIssuer, wantErr == nil, fail, len(sc.ins), len(g.outs)))
	t.Count(fmt.Sprintf("builder: %s, issuer %q, builds %v, fails %v", mode, badIssuer, wantErr == nil, fail >= 0))
	if fail >= 0 {
		checkStatusError(t, "SendPayloadWithTransactionBuilder", s.expect[fail].status, err)

		return
	}
	if badIssuer != "" || wantErr != nil {
		t.Check(err != nil && payload == nil && created == nil, "builder:error", "no error (issuer %q, builder %v)", info.BlockIssuerAddress, wantErr)

		return
	}
	if !t.Check(err == nil, "builder:refused", "error %v", err) {
		return
	}
	t.Check(bytes.Equal(refPayload(payload), refPayload(want)), "builder:payload", "the returned payload is not what was sent")
	t.Check(same(created) == same(res), "builder:response", "%s", firstDiff(same(created), same(res)))
}

// nodeNew makes clients from what nodes tell about themselves.
func nodeNew(t *Case) {
	r := t.R
	w := pickWorld(r)
	pp := provParams(r, w, 3)
	pw := &World{Name: w.Name, API: iotago.V3API(pp), PP: pp}
	info := genAPI[api.InfoResponse](r, w)
	start := iotago.EpochIndex(0)
	info.ProtocolParameters = []*api.InfoResProtocolParameters{{StartEpoch: start, Parameters: pp}}
	clk := clockOf(pp)
	info.Status.LatestCommitmentID = setSlot(rid36(r), uint32(pickNear(r, clk.genesisSlot, clk.genesisSlot+1<<20)))
	ex := infoExchange(pw, info)
	n := &fakeNode{host: "node.test", def: &nodeSession{expect: []*exchange{ex}}}
	opt := nodeclient.WithHTTPClient(&http.Client{Transport: n})
	mode := r.Intn(6)
	switch mode {
	case 1:
		ex.status, ex.json = statusCodes[r.Intn(len(statusCodes))], nil
	case 2:
		ex.hangup, ex.midway = hangup, coin(r, 2)
	case 3:
		ex.json = ex.json[:r.Intn(len(ex.json))]
	case 4:
		if coin(r, 10) {
			ex.status = 204
		}
		for k := 1 + r.Intn(2); k > 0; k-- {
			ex.json = mutateJSON(r, ex.json)
		}
	}
	var cl *nodeclient.Client
	var err error
	func() {
		defer func() {
			if p := recover(); p != nil {
				if mode != 4 || !strings.Contains(string(debug.Stack()), "AddProtocolParametersAtEpoch") {
					panic(p)
				}
				t.Count("new clients: parameters which make no protocol")
			}
		}()
		cl, err = nodeclient.New(nodeBase, opt)
	}()
	n.def.finish(t, "New", true)
	t.Eval(fmt.Sprint("new/", mode, start, err == nil))
	t.Count("new clients: mode " + itoa(mode))
	switch mode {
	case 1:
		t.Check(err != nil && cl == nil, "new:status", "no error for status %d", ex.status)
		checkStatusError(t, "New", ex.status, err)

		return
	case 2:
		t.Check(errors.Is(err, hangup) && cl == nil, "new:broken", "error %v", err)

		return
	case 3:
		t.Check(err != nil && cl == nil, "new:truncated", "no error for a truncated answer")

		return
	case 4:
		return
	}
	if !t.Check(err == nil, "new:refused", "New: %v", err) {
		return
	}
	want := refDesc(pp)
	ask := func() {
		a, err := cl.APIForVersion(3)
		t.Check(err == nil && descAPI(a) == want, "new:APIForVersion", "%s %v, expected %s", descAPI(a), err, want)
		_, err = cl.APIForVersion(4)
		t.Check(err != nil, "new:APIForVersion", "version 4 is known")
		b := genBlock(r, w)
		b.Header.ProtocolVersion = iotago.Version(4 + r.Intn(200))
		_, err = cl.SubmitBlock(context.Background(), b)
		t.Check(err != nil, "new:SubmitBlock", "a block of version %d was sent", b.Header.ProtocolVersion)
		t.Check(descAPI(cl.LatestAPI()) == want, "new:LatestAPI", "%s, expected %s", descAPI(cl.LatestAPI()), want)
		e := start + iotago.EpochIndex(r.Intn(1000))
		t.Check(descAPI(cl.APIForEpoch(e)) == want, "new:APIForEpoch", "%s, expected %s", descAPI(cl.APIForEpoch(e)), want)
		slot := iotago.SlotIndex(clk.start(uint64(e)))
		t.Check(descAPI(cl.APIForSlot(slot)) == want, "new:APIForSlot", "%s, expected %s", descAPI(cl.APIForSlot(slot)), want)
	}
	ask()
	t.Check(descAPI(cl.CommittedAPI()) == want, "new:CommittedAPI", "%s, expected %s", descAPI(cl.CommittedAPI()), want)
	// the node moves on
	next := genAPI[api.InfoResponse](r, w)
	next.ProtocolParameters = info.ProtocolParameters
	next.Status.LatestCommitmentID = setSlot(rid36(r), uint32(pickNear(r, clk.start(uint64(start)), clk.start(uint64(start))+1<<20)))
	n.def.expect = []*exchange{ex, infoExchange(pw, next)}
	n.def.pos = 1
	got, err := cl.Info(context.Background())
	n.def.finish(t, "Info", true)
	if t.Check(err == nil, "new:Info", "Info: %v", err) {
		g, e := same(got), same(next)
		t.Check(g == e, "new:Info", "%s", firstDiff(g, e))
		t.Check(descAPI(cl.CommittedAPI()) == want, "new:CommittedAPI", "%s, expected %s", descAPI(cl.CommittedAPI()), want)
	}
	ask()
}
