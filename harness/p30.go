package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/eclipse/paho.mqtt.golang/packets"
	"github.com/gorilla/websocket"

	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/api"
	"github.com/iotaledger/iota.go/v4/nodeclient"
)

// P30: the client of the node's event API against a real MQTT broker on the loopback interface.

// broker speaks just enough MQTT 3.1.1 over websockets.
type broker struct {
	ln   net.Listener
	srv  *http.Server
	mu   sync.Mutex
	cond *sync.Cond

	conns    []*brokerConn
	clients  []string          // client IDs in order of connection
	paths    map[string]bool   // of websocket requests
	subs     map[string]byte   // live subscriptions
	subLog   []string          // every SUBSCRIBE
	unsubLog []string          // every UNSUBSCRIBE
	open     map[uint16]string // messages in flight
	nextID   uint16
	refuse   map[string]bool // topics whose subscription is refused
	hangup   map[string]bool // topics whose subscription breaks the connection
	problems []string
	rogue    *rand.Rand
}

type brokerConn struct {
	ws *websocket.Conn
	r  io.Reader
	mu sync.Mutex
}

func (c *brokerConn) Read(p []byte) (int, error) {
	for {
		if c.r == nil {
			var err error
			if _, c.r, err = c.ws.NextReader(); err != nil {
				return 0, err
			}
		}
		n, err := c.r.Read(p)
		if err == io.EOF {
			c.r = nil
			if n > 0 {
				return n, nil
			}

			continue
		}

		return n, err
	}
}

func (c *brokerConn) send(p packets.ControlPacket) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	w, err := c.ws.NextWriter(websocket.BinaryMessage)
	if err != nil {
		return err
	}
	if err := p.Write(w); err != nil {
		return err
	}

	return w.Close()
}

func newBroker() *broker {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	b := &broker{ln: ln, paths: map[string]bool{}, subs: map[string]byte{}, open: map[uint16]string{}, refuse: map[string]bool{}, hangup: map[string]bool{}}
	b.cond = sync.NewCond(&b.mu)
	b.srv = &http.Server{Handler: b}
	go func() { _ = b.srv.Serve(ln) }()

	return b
}

func (b *broker) close() {
	_ = b.srv.Close()
	b.mu.Lock()
	defer b.mu.Unlock()
	for _, c := range b.conns {
		_ = c.ws.Close()
	}
}

// drop breaks all connections.
func (b *broker) drop() {
	b.mu.Lock()
	defer b.mu.Unlock()
	for _, c := range b.conns {
		_ = c.ws.Close()
	}
	b.conns = nil
	b.subs = map[string]byte{}
	b.open = map[uint16]string{}
}

func (b *broker) problem(f string, args ...any) {
	b.problems = append(b.problems, fmt.Sprintf(f, args...))
}

func (b *broker) ServeHTTP(rw http.ResponseWriter, req *http.Request) {
	b.mu.Lock()
	b.paths[req.URL.Path] = true
	b.mu.Unlock()
	up := websocket.Upgrader{Subprotocols: []string{"mqtt"}, CheckOrigin: func(*http.Request) bool { return true }}
	ws, err := up.Upgrade(rw, req, nil)
	if err != nil {
		return
	}
	c := &brokerConn{ws: ws}
	defer ws.Close()
	b.mu.Lock()
	b.conns = append(b.conns, c)
	b.mu.Unlock()
	for {
		p, err := packets.ReadPacket(c)
		if err != nil {
			return
		}
		b.mu.Lock()
		var answer packets.ControlPacket
		switch x := p.(type) {
		case *packets.ConnectPacket:
			b.clients = append(b.clients, x.ClientIdentifier)
			answer = packets.NewControlPacket(packets.Connack)
		case *packets.SubscribePacket:
			a := packets.NewControlPacket(packets.Suback).(*packets.SubackPacket)
			a.MessageID = x.MessageID
			for i, t := range x.Topics {
				b.subLog = append(b.subLog, t)
				code := x.Qoss[i]
				switch {
				case b.refuse[t]:
					code = 0x80
				case b.hangup[t]:
					b.mu.Unlock()

					return
				default:
					b.subs[t] = code
				}
				a.ReturnCodes = append(a.ReturnCodes, code)
			}
			answer = a
		case *packets.UnsubscribePacket:
			for _, t := range x.Topics {
				b.unsubLog = append(b.unsubLog, t)
				delete(b.subs, t)
			}
			a := packets.NewControlPacket(packets.Unsuback).(*packets.UnsubackPacket)
			a.MessageID = x.MessageID
			answer = a
		case *packets.PubackPacket:
			delete(b.open, x.MessageID)
		case *packets.PubrecPacket:
			a := packets.NewControlPacket(packets.Pubrel).(*packets.PubrelPacket)
			a.MessageID = x.MessageID
			answer = a
		case *packets.PubcompPacket:
			delete(b.open, x.MessageID)
		case *packets.PingreqPacket:
			answer = packets.NewControlPacket(packets.Pingresp)
		case *packets.DisconnectPacket:
			b.mu.Unlock()

			return
		default:
			b.problem("unexpected packet %s", p)
		}
		b.cond.Broadcast()
		b.mu.Unlock()
		if answer != nil {
			if err := c.send(answer); err != nil {
				return
			}
		}
	}
}

// publish sends a message to the subscriber of the topic.
func (b *broker) publish(topic string, qos byte, payload []byte) bool {
	b.mu.Lock()
	max, is := b.subs[topic]
	if !is || len(b.conns) == 0 {
		b.mu.Unlock()

		return false
	}
	c := b.conns[len(b.conns)-1]
	p := packets.NewControlPacket(packets.Publish).(*packets.PublishPacket)
	p.TopicName = topic
	p.Payload = payload
	p.Qos = min(qos, max)
	if p.Qos > 0 {
		b.nextID++
		if b.nextID == 0 {
			b.nextID++
		}
		p.MessageID = b.nextID
		b.open[p.MessageID] = topic
	}
	b.mu.Unlock()

	return c.send(p) == nil
}

// eventSub is one kind of subscription with its topic.
type eventSub struct {
	name, topic string
	kind        string
	sub         func(e *nodeclient.EventAPIClient) (any, *nodeclient.EventAPIClientSubscription)
}

func sub2[T any](c <-chan T, s *nodeclient.EventAPIClientSubscription) (any, *nodeclient.EventAPIClientSubscription) {
	return c, s
}

// eventSubs makes one of each kind of subscription with random arguments.
func eventSubs(r *rand.Rand, w *World) []eventSub {
	type E = nodeclient.EventAPIClient
	type S = nodeclient.EventAPIClientSubscription
	tx, bid, oid, tag := iotago.TransactionID(rid36(r)), iotago.BlockID(rid36(r)), genOutputID(r), rbytes(r, 1+r.Intn(64))
	acc, anc, nft, del, fid := iotago.AccountID(r32(r)), iotago.AnchorID(r32(r)), iotago.NFTID(r32(r)), iotago.DelegationID(r32(r)), genFoundryID(r)
	a1, a2, a3 := iotago.AccountAddress(acc), iotago.AnchorAddress(anc), iotago.NFTAddress(nft)
	addr := genAnyAddr(r)
	conds := []api.EventAPIUnlockCondition{api.EventAPIUnlockConditionAny, api.EventAPIUnlockConditionAddress, api.EventAPIUnlockConditionStorageReturn, api.EventAPIUnlockConditionExpiration, api.EventAPIUnlockConditionStateController, api.EventAPIUnlockConditionGovernor, api.EventAPIUnlockConditionImmutableAccount}
	names := []string{"+", "address", "storage-return", "expiration", "state-controller", "governor", "immutable-account"}
	ci := 1 + r.Intn(len(conds)-1) // "+" is a wildcard, whose messages come with other topics

	return []eventSub{
		{"CommitmentsLatest", "commitments/latest", "commitment", func(e *E) (any, *S) { return sub2(e.CommitmentsLatest()) }},
		{"CommitmentsFinalized", "commitments/finalized", "commitment", func(e *E) (any, *S) { return sub2(e.CommitmentsFinalized()) }},
		{"Blocks", "blocks", "block", func(e *E) (any, *S) { return sub2(e.Blocks()) }},
		{"BlocksValidation", "blocks/validation", "block", func(e *E) (any, *S) { return sub2(e.BlocksValidation()) }},
		{"BlocksBasic", "blocks/basic", "block", func(e *E) (any, *S) { return sub2(e.BlocksBasic()) }},
		{"BlocksBasicWithTaggedData", "blocks/basic/tagged-data", "block", func(e *E) (any, *S) { return sub2(e.BlocksBasicWithTaggedData()) }},
		{"BlocksBasicWithTaggedDataByTag", "blocks/basic/tagged-data/" + hx(tag), "block", func(e *E) (any, *S) { return sub2(e.BlocksBasicWithTaggedDataByTag(tag)) }},
		{"BlocksBasicWithTransactions", "blocks/basic/transaction", "block", func(e *E) (any, *S) { return sub2(e.BlocksBasicWithTransactions()) }},
		{"BlocksBasicWithTransactionsWithTaggedData", "blocks/basic/transaction/tagged-data", "block", func(e *E) (any, *S) { return sub2(e.BlocksBasicWithTransactionsWithTaggedData()) }},
		{"BlocksBasicWithTransactionsWithTaggedDataByTag", "blocks/basic/transaction/tagged-data/" + hx(tag), "block", func(e *E) (any, *S) { return sub2(e.BlocksBasicWithTransactionsWithTaggedDataByTag(tag)) }},
		{"BlockMetadataTransactionIncludedBlocksByTransactionID", "transactions/" + hx(tx[:]) + "/included-block-metadata", "block-metadata", func(e *E) (any, *S) {
			return sub2(e.BlockMetadataTransactionIncludedBlocksByTransactionID(tx))
		}},
		{"TransactionMetadataByTransactionID", "transaction-metadata/" + hx(tx[:]), "tx-metadata", func(e *E) (any, *S) { return sub2(e.TransactionMetadataByTransactionID(tx)) }},
		{"BlockMetadataByBlockID", "block-metadata/" + hx(bid[:]), "block-metadata", func(e *E) (any, *S) { return sub2(e.BlockMetadataByBlockID(bid)) }},
		{"BlockMetadataAcceptedBlocks", "block-metadata/accepted", "block-metadata", func(e *E) (any, *S) { return sub2(e.BlockMetadataAcceptedBlocks()) }},
		{"BlockMetadataConfirmedBlocks", "block-metadata/confirmed", "block-metadata", func(e *E) (any, *S) { return sub2(e.BlockMetadataConfirmedBlocks()) }},
		{"OutputWithMetadataByOutputID", "outputs/" + hx(oid[:]), "output", func(e *E) (any, *S) { return sub2(e.OutputWithMetadataByOutputID(oid)) }},
		{"OutputsWithMetadataByAccountID", "outputs/account/" + refBech32(w, &a1), "output", func(e *E) (any, *S) { return sub2(e.OutputsWithMetadataByAccountID(acc)) }},
		{"OutputsWithMetadataByAnchorID", "outputs/anchor/" + refBech32(w, &a2), "output", func(e *E) (any, *S) { return sub2(e.OutputsWithMetadataByAnchorID(anc)) }},
		{"OutputsWithMetadataByFoundryID", "outputs/foundry/" + hx(fid[:]), "output", func(e *E) (any, *S) { return sub2(e.OutputsWithMetadataByFoundryID(fid)) }},
		{"OutputsWithMetadataByNFTID", "outputs/nft/" + refBech32(w, &a3), "output", func(e *E) (any, *S) { return sub2(e.OutputsWithMetadataByNFTID(nft)) }},
		{"OutputsWithMetadataByDelegationID", "outputs/delegation/" + hx(del[:]), "output", func(e *E) (any, *S) { return sub2(e.OutputsWithMetadataByDelegationID(del)) }},
		{"OutputsWithMetadataByUnlockConditionAndAddress", "outputs/unlock/" + names[ci] + "/" + refBech32(w, addr), "output", func(e *E) (any, *S) {
			return sub2(e.OutputsWithMetadataByUnlockConditionAndAddress(conds[ci], addr))
		}},
	}
}

// eventMessage makes a message of the kind: its bytes and what it looks like when it is delivered.
func eventMessage(r *rand.Rand, w *World, kind string) (raw []byte, want string) {
	switch kind {
	case "commitment":
		c := genAPI[iotago.Commitment](r, w)

		return refCommitment(c), same(c)
	case "block":
		b := genValidBlock(r, w)

		return refBlock(b), same(b)
	case "block-metadata":
		m := genAPI[api.BlockMetadataResponse](r, w)

		return apiBin(reflect.ValueOf(m), "", ""), same(m)
	case "tx-metadata":
		m := genAPI[api.TransactionMetadataResponse](r, w)

		return apiBin(reflect.ValueOf(m), "", ""), same(m)
	}
	_, o, p := provenOutput(r, w)
	m := &api.OutputWithMetadataResponse{Output: o, OutputIDProof: p, Metadata: genAPI[api.OutputMetadata](r, w)}

	return apiBin(reflect.ValueOf(m), "", ""), same(m)
}

// eventGoroutines counts goroutines in subscription callbacks.
func eventGoroutines() (n int, stacks string) {
	buf := make([]byte, 4<<20)
	for _, g := range strings.Split(string(buf[:runtime.Stack(buf, true)]), "\n\n") {
		if strings.Contains(g, "nodeclient.subscribeToTopic") {
			n++
			stacks += g + "\n"
		}
	}

	return n, stacks
}

// eventually waits until cond holds.
func eventually(d time.Duration, cond func() bool) bool {
	for end := time.Now().Add(d); ; {
		if cond() {
			return true
		}
		if time.Now().After(end) {
			return false
		}
		time.Sleep(200 * time.Microsecond)
	}
}

const eventWait = 20 * time.Second

// connectEvents makes an event client which is connected to the broker.
func connectEvents(t *Case, nc *nodeClients, b *broker, ctx context.Context) *nodeclient.EventAPIClient {
	s := &nodeSession{routes: allRoutes}
	cl := *nc.cl
	cl.BaseURL = "http://" + b.ln.Addr().String()
	e, err := (&cl).EventAPI(s.ctx())
	if err != nil {
		panic(err)
	}
	if err := e.Connect(ctx); err != nil {
		t.Violate("connect", "the client does not connect: %v", err)
		t.Stop()
	}
	b.mu.Lock()
	ids := append([]string{}, b.clients...)
	b.mu.Unlock()
	for _, id := range ids {
		if _, other := eventClientIDs.LoadOrStore(id, true); id != "" {
			t.Check(!other, "client-id", "two clients connect as %q, so that the broker disconnects one of them", id)
		}
	}

	return e
}

func init() {
	register("P30", func(c *Ctx) {
		c.Rule("deliver: an event client connected to an MQTT broker over loopback websockets; random sets of subscriptions of every kind; random messages, some malformed, in all qualities of service, published in any order; the broker records every packet, receivers record every delivery")
		c.Rule("late: receivers which start to receive seconds after the messages were published still get every message")
		c.Rule("stall: a topic nobody receives from must not hold up another one; cancelling the context frees every blocked delivery")
		c.Rule("resubscribe, close, refused, inactive, lost: the life cycle of subscriptions and connections")
		c.Assume("Messages of a topic may be delivered in any order; errors are dropped when nobody receives them; after a lost connection subscriptions are not judged")

		var cls []*nodeClients
		for _, w := range worlds() {
			cls = append(cls, newNodeClient(w, 0))
		}
		pick := func(r *rand.Rand) *nodeClients { return cls[r.Intn(len(cls))] }

		c.Run("deliver", c.N(600, 12000), func(t *Case) { eventDeliver(t, pick(t.R)) })
		c.Run("late", c.N(16, 64), func(t *Case) { eventLate(t, pick(t.R)) })
		c.RunSerial("stall", c.N(40, 600), func(t *Case) { eventStall(t, pick(t.R)) })
		c.Run("life", c.N(480, 12000), func(t *Case) { eventLife(t, pick(t.R)) })
		c.Run("lost", c.N(8, 60), func(t *Case) { eventLost(t, pick(t.R)) })
	})
}

func eventDeliver(t *Case, nc *nodeClients) {
	r, w := t.R, nc.w
	b := newBroker()
	defer b.close()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	e := connectEvents(t, nc, b, ctx)
	defer e.Close()
	all := eventSubs(r, w)
	r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	all = all[:1+r.Intn(5)]
	// errors
	var emu sync.Mutex
	errs := 0
	go func() {
		for {
			select {
			case <-ctx.Done():
				return
			case err := <-e.Errors:
				emu.Lock()
				if err != nil {
					errs++
				}
				emu.Unlock()
			}
		}
	}()
	errCount := func() int {
		emu.Lock()
		defer emu.Unlock()

		return errs
	}
	// subscriptions, in parallel
	type live struct {
		eventSub
		s    *nodeclient.EventAPIClientSubscription
		mu   sync.Mutex
		got  []string
		want []string
	}
	lives := make([]*live, len(all))
	var wg sync.WaitGroup
	parallel := coin(r, 2)
	subscribe := func(i int, delay time.Duration) {
		l := &live{eventSub: all[i]}
		ch, s := l.sub(e)
		l.s = s
		lives[i] = l
		if s.Error() != nil {
			return
		}
		go func() {
			v := reflect.ValueOf(ch)
			for {
				k, x, ok := reflect.Select([]reflect.SelectCase{{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(ctx.Done())}, {Dir: reflect.SelectRecv, Chan: v}})
				if k == 0 || !ok {
					return
				}
				time.Sleep(delay)
				l.mu.Lock()
				l.got = append(l.got, same(x.Interface()))
				l.mu.Unlock()
			}
		}()
	}
	for i := range all {
		delay := time.Duration(r.Intn(3)) * 100 * time.Microsecond
		if !parallel {
			subscribe(i, delay)

			continue
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			t.guard(func() { subscribe(i, delay) })
		}()
	}
	wg.Wait()
	for i, l := range lives {
		if l == nil {
			return
		}
		if !t.Check(l.s.Error() == nil, "subscribe:"+all[i].name, "error %v", l.s.Error()) {
			return
		}
	}
	b.mu.Lock()
	for _, l := range lives {
		_, is := b.subs[l.topic+"/raw"]
		if !t.Check(is, "topic:"+l.name, "the broker has subscriptions %v, expected %s/raw", b.subLog, l.topic) {
			b.mu.Unlock()

			return
		}
	}
	t.Check(len(b.subLog) == len(lives), "topic:extra", "subscriptions %v", b.subLog)
	t.Check(b.paths["/api/mqtt/v2"] && len(b.paths) == 1, "broker-url", "websockets at %v", b.paths)
	b.mu.Unlock()
	// messages
	bad := 0
	n := rlen(r, 0, 24)
	for i := 0; i < n; i++ {
		l := lives[r.Intn(len(lives))]
		raw, want := eventMessage(r, w, l.kind)
		if coin(r, 5) { // malformed
			switch r.Intn(3) {
			case 0:
				raw = nil
			default:
				raw = raw[:r.Intn(len(raw))]
			}
			bad++
			t.Count("malformed messages")
		} else {
			l.want = append(l.want, want)
			t.Count("messages of " + l.name)
		}
		if !b.publish(l.topic+"/raw", byte(r.Intn(3)), raw) {
			t.Violate("disconnected", "the client is no longer connected")

			return
		}
	}
	for _, l := range lives {
		eventually(eventWait, func() bool {
			l.mu.Lock()
			defer l.mu.Unlock()

			return len(l.got) >= len(l.want)
		})
	}
	// every message of quality 1 and 2 is acknowledged
	acked := eventually(eventWait, func() bool {
		b.mu.Lock()
		defer b.mu.Unlock()

		return len(b.open) == 0
	})
	t.Check(acked, "acknowledge", "%d messages are not acknowledged", len(b.open))
	for _, l := range lives {
		l.mu.Lock()
		got, want := append([]string{}, l.got...), append([]string{}, l.want...)
		l.mu.Unlock()
		sort.Strings(got)
		sort.Strings(want)
		g, x := strings.Join(got, "\n"), strings.Join(want, "\n")
		t.Check(g == x, "delivery:"+l.name, "%d messages were delivered, %d published: %s", len(got), len(want), firstDiff(g, x))
	}
	t.Eval(fmt.Sprint("deliver/", len(all), parallel, n, bad))
	if bad == 0 {
		t.Check(errCount() == 0, "error-without-cause", "%d errors for valid messages", errCount())

		return
	}
	// a malformed message is reported if somebody listens
	l := lives[0]
	reported := eventually(eventWait, func() bool {
		if errCount() > 0 {
			return true
		}
		b.publish(l.topic+"/raw", 1, []byte{1})
		time.Sleep(2 * time.Millisecond)

		return false
	})
	t.Check(reported, "error-not-reported:"+l.name, "malformed messages are not reported")
	// and the subscription goes on
	raw, want := eventMessage(r, w, l.kind)
	l.mu.Lock()
	before := len(l.got)
	l.mu.Unlock()
	b.publish(l.topic+"/raw", byte(r.Intn(3)), raw)
	after := eventually(eventWait, func() bool {
		l.mu.Lock()
		defer l.mu.Unlock()

		return len(l.got) > before
	})
	if t.Check(after, "stopped:"+l.name, "nothing is delivered after a malformed message") {
		l.mu.Lock()
		t.Check(l.got[before] == want, "delivery:"+l.name, "%s", firstDiff(l.got[before], want))
		l.mu.Unlock()
	}
}

func recvOne(ch any, d time.Duration) (string, bool) {
	tm := time.NewTimer(d)
	defer tm.Stop()
	k, x, ok := reflect.Select([]reflect.SelectCase{{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(tm.C)}, {Dir: reflect.SelectRecv, Chan: reflect.ValueOf(ch)}})
	if k == 0 || !ok {
		return "", false
	}

	return same(x.Interface()), true
}

// eventClientIDs holds the identifiers of all clients which connected; brokers close the connection of a client when another one comes with its identifier.
var eventClientIDs sync.Map

func eventLate(t *Case, nc *nodeClients) {
	r, w := t.R, nc.w
	b := newBroker()
	defer b.close()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	e := connectEvents(t, nc, b, ctx)
	defer e.Close()
	type late struct {
		eventSub
		ch   any
		want []string
	}
	var ls []*late
	for _, s := range eventSubs(r, w) {
		ch, x := s.sub(e)
		if !t.Check(x.Error() == nil, "late:subscribe", "error %v", x.Error()) {
			return
		}
		ls = append(ls, &late{eventSub: s, ch: ch})
	}
	for _, l := range ls {
		for i := r.Intn(4); i >= 0; i-- {
			raw, want := eventMessage(r, w, l.kind)
			if b.publish(l.topic+"/raw", byte(r.Intn(3)), raw) {
				l.want = append(l.want, want)
			}
		}
	}
	delay := time.Duration(1+r.Intn(11)) * time.Second
	time.Sleep(delay)
	for _, l := range ls {
		var got []string
		for range l.want {
			m, ok := recvOne(l.ch, eventWait)
			if !ok {
				break
			}
			got = append(got, m)
		}
		sort.Strings(got)
		sort.Strings(l.want)
		t.Eval(fmt.Sprint("late/", l.name, len(l.want), delay))
		t.Add("messages received late", int64(len(got)))
		if !t.Check(len(got) == len(l.want), "late:lost", "%d of %d messages of %s are delivered to a receiver which starts after %s", len(got), len(l.want), l.name, delay) {
			return
		}
		for i := range got {
			t.Check(got[i] == l.want[i], "delivery:"+l.name, "%s", firstDiff(got[i], l.want[i]))
		}
	}
}

func eventStall(t *Case, nc *nodeClients) {
	r, w := t.R, nc.w
	b := newBroker()
	defer b.close()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	e := connectEvents(t, nc, b, ctx)
	defer e.Close()
	all := eventSubs(r, w)
	r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	stuck, free := all[0], all[1]
	_, s1 := stuck.sub(e)
	ch2, s2 := free.sub(e)
	if !t.Check(s1.Error() == nil && s2.Error() == nil, "stall:subscribe", "errors %v, %v", s1.Error(), s2.Error()) {
		return
	}
	n := 1 + r.Intn(150)
	if n > 10 && coin(r, 2) {
		n = 1 + r.Intn(10)
	}
	qos := byte(r.Intn(3))
	raw, _ := eventMessage(r, w, stuck.kind)
	for i := 0; i < n; i++ {
		b.publish(stuck.topic+"/raw", qos, raw)
	}
	raw, want := eventMessage(r, w, free.kind)
	b.publish(free.topic+"/raw", byte(r.Intn(3)), raw)
	got, ok := recvOne(ch2, eventWait)
	t.Eval(fmt.Sprint("stall/", stuck.name, free.name, n))
	t.Add("messages nobody received", int64(n))
	if t.Check(ok, "stalled", "a message of %s is not delivered while nobody receives %d messages of %s", free.name, n, stuck.name) {
		t.Check(got == want, "delivery:"+free.name, "%s", firstDiff(got, want))
	}
	if coin(r, 2) {
		t.Check(s2.Close() == nil, "stall:close", "Close fails")
	}
	cancel()
	leak := 0
	stacks := ""
	done := eventually(eventWait, func() bool {
		leak, stacks = eventGoroutines()

		return leak == 0
	})
	t.Check(done, "leak", "%d deliveries are still blocked after the context is done:\n%s", leak, stacks)
	inactive(t, e, free)
}

// inactive checks that a subscription panics with the documented error.
func inactive(t *Case, e *nodeclient.EventAPIClient, s eventSub) {
	defer func() {
		p := recover()
		err, is := p.(error)
		t.Check(is && errors.Is(err, nodeclient.ErrEventAPIClientInactive), "inactive:"+s.name, "a subscription of an inactive client gives %v", p)
	}()
	s.sub(e)
}

func eventLife(t *Case, nc *nodeClients) {
	r, w := t.R, nc.w
	b := newBroker()
	defer b.close()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	mode := r.Intn(6)
	t.Eval("life/" + itoa(mode))
	t.Count("life cycle: mode " + itoa(mode))
	if mode == 5 { // no broker
		s := &nodeSession{routes: allRoutes}
		cl := *nc.cl
		cl.BaseURL = "http://" + b.ln.Addr().String()
		if coin(r, 2) {
			cl.BaseURL = "https://node" + itoa(r.Intn(100)) + ".example:14265"
		}
		e, err := (&cl).EventAPI(s.ctx())
		if err != nil {
			panic(err)
		}
		o := e.MQTTClient.OptionsReader()
		want := strings.Replace(cl.BaseURL, "http", "ws", 1) + "/api/mqtt/v2"
		t.Check(len(o.Servers()) == 1 && o.Servers()[0].String() == want, "broker-url", "brokers %v, expected %s", o.Servers(), want)
		t.Check(!o.Order(), "ordered", "the client waits for every handler")
		if strings.HasPrefix(cl.BaseURL, "https") {
			return
		}
		b.close()
		t.Check(e.Connect(ctx) != nil, "connect-error", "connecting to nobody is no error")
		subs := eventSubs(r, w)
		inactive(t, e, subs[r.Intn(len(subs))])

		return
	}
	e := connectEvents(t, nc, b, ctx)
	defer e.Close()
	subs := eventSubs(r, w)
	s := subs[r.Intn(len(subs))]
	topic := s.topic + "/raw"
	switch mode {
	case 0: // the second registration replaces the first one
		ch1, s1 := s.sub(e)
		ch2, s2 := s.sub(e)
		if !t.Check(s1.Error() == nil && s2.Error() == nil, "resubscribe", "errors %v, %v", s1.Error(), s2.Error()) {
			return
		}
		raw, want := eventMessage(r, w, s.kind)
		b.publish(topic, byte(r.Intn(3)), raw)
		got, ok := recvOne(ch2, eventWait)
		if t.Check(ok, "resubscribe:"+s.name, "the second channel gets nothing") {
			t.Check(got == want, "delivery:"+s.name, "%s", firstDiff(got, want))
		}
		_, ok = recvOne(ch1, time.Millisecond)
		t.Check(!ok, "resubscribe:"+s.name, "the first channel still gets messages")
	case 1: // close, twice, and once more
		ch, s1 := s.sub(e)
		err := s1.Close()
		b.mu.Lock()
		_, still := b.subs[topic]
		log := append([]string{}, b.unsubLog...)
		b.mu.Unlock()
		t.Check(err == nil && !still && len(log) == 1 && log[0] == topic, "close:"+s.name, "Close gives %v, the broker saw %v", err, log)
		t.Check(s1.Close() == nil, "close-twice:"+s.name, "the second Close fails")
		ch, s2 := s.sub(e)
		raw, want := eventMessage(r, w, s.kind)
		b.publish(topic, byte(r.Intn(3)), raw)
		got, ok := recvOne(ch, eventWait)
		t.Check(s2.Error() == nil && ok && got == want, "reopen:"+s.name, "after closing and subscribing again: %v, delivered %v: %s", s2.Error(), ok, firstDiff(got, want))
	case 2: // the broker refuses, or hangs up
		if coin(r, 2) {
			b.refuse[topic] = true
		} else {
			b.hangup[topic] = true
		}
		_, s1 := s.sub(e)
		t.Check(s1.Error() != nil, "refused:"+s.name, "a subscription which the broker does not grant (hangs up: %v) has no error", b.hangup[topic])
		if s1.Error() != nil {
			t.Check(s1.Close() != nil, "refused-close:"+s.name, "closing a failed subscription is no error")
		}
	case 3: // the context is done
		cancel()
		inactive(t, e, s)
	case 4: // the client is closed
		e.Close()
		if t.Check(eventually(eventWait, func() bool { return !e.MQTTClient.IsConnected() }), "close", "the client stays connected after Close") {
			inactive(t, e, s)
		}
	}
	b.mu.Lock()
	t.Check(len(b.problems) == 0, "broker", "%v", b.problems)
	b.mu.Unlock()
}

// eventLost: a lost connection is reported.
func eventLost(t *Case, nc *nodeClients) {
	b := newBroker()
	defer b.close()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	e := connectEvents(t, nc, b, ctx)
	defer e.Close()
	got := make(chan error, 64)
	go func() {
		for {
			select {
			case <-ctx.Done():
				return
			case err := <-e.Errors:
				select {
				case got <- err:
				default:
				}
			}
		}
	}()
	var err error
	for i := 0; i < 4 && err == nil; i++ {
		time.Sleep(5 * time.Millisecond)
		b.drop()
		select {
		case err = <-got:
		case <-time.After(5 * time.Second):
		}
		if err == nil {
			eventually(5*time.Second, func() bool {
				b.mu.Lock()
				defer b.mu.Unlock()

				return len(b.conns) > 0
			})
		}
	}
	t.Eval("lost/" + itoa(t.Index))
	t.Count("lost connections")
	t.Check(err != nil, "lost", "a lost connection is not reported")
}
