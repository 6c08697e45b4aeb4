package harness

// C21: opaque payloads through the dealer.

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"slices"
	"testing"

	"github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/messages"
	"github.com/xconnio/wampproto-go/serializers"
	"pgregory.net/rapid"
)

// payload is what a call or result carries: args and kwargs, and when it is
// opaque also their encoding, or arbitrary bytes that only static serializers
// understand.
type payload struct {
	Binary bool   `json:"binary,omitempty"`
	Bytes  string `json:"bytes,omitempty"`
	Ser    uint64 `json:"ser,omitempty"`
	Args   V      `json:"args"`
	Kw     V      `json:"kw"`
	Ctor   bool   `json:"ctor,omitempty"` // made with New...Binary
}

type opaqueOp struct {
	K    string  `json:"k"` // call, yield, error
	S    int     `json:"s"`
	Proc int     `json:"proc"`
	Ref  int     `json:"ref"`
	Prog bool    `json:"prog,omitempty"`
	Go   bool    `json:"go,omitempty"` // a call goes on with a progressive one, if there is one
	P    payload `json:"p"`
}

type opaqueCase struct {
	Static int        `json:"static"`
	Procs  int        `json:"procs"` // session i offers procedures 0..Procs-1 shared round robin
	Ops    []opaqueOp `json:"ops"`
}

// callFields and yieldFields are messages as a serializer of an application
// gives them: the payload stays encoded, Args and KwArgs decode it.
type callFields struct {
	messages.CallFields
	p payload
}

func (f *callFields) PayloadIsBinary() bool     { return f.p.Binary }
func (f *callFields) Payload() []byte           { return f.p.bytes() }
func (f *callFields) PayloadSerializer() uint64 { return f.p.Ser }

type yieldFields struct {
	messages.YieldFields
	p payload
}

func (f *yieldFields) PayloadIsBinary() bool     { return f.p.Binary }
func (f *yieldFields) Payload() []byte           { return f.p.bytes() }
func (f *yieldFields) PayloadSerializer() uint64 { return f.p.Ser }

func (p payload) bytes() []byte {
	b, err := hex.DecodeString(p.Bytes)
	if err != nil {
		panic("HARNESS-ERROR: " + err.Error())
	}
	return b
}

func (p payload) lists() ([]any, map[string]any) {
	a, _ := p.Args.Go().([]any)
	k, _ := p.Kw.Go().(map[string]any)
	return a, k
}

func genPayload(t *rapid.T) payload {
	p := payload{Args: genArgs(t, fmtMsgPack), Kw: genKwargs(t, fmtMsgPack)}
	if chance(t, "binary", 70) {
		p.Binary = true
		p.Ser = pick(t, "serializer", uint64(0), 1, 2, 3, 4, 9, 1<<32, uint64(maxSafe))
		b := genBytes(t)
		if chance(t, "long", 5) {
			b = bytes.Repeat([]byte{byte(intn(t, "byte", 256)), 0, 255}, between(t, "len", 100, 30000))
		}
		p.Bytes = hex.EncodeToString(b)
		p.Ctor = chance(t, "constructor", 50)
	}
	return p
}

func genOpaque(t *rapid.T) opaqueCase {
	c := opaqueCase{Static: intn(t, "static", 64), Procs: between(t, "procs", 1, 3)}
	for i := between(t, "n", 2, 40); i > 0; i-- {
		o := opaqueOp{K: pick(t, "op", "call", "call", "call", "yield", "yield", "yield", "error"), S: intn(t, "session", 6),
			Proc: intn(t, "proc", c.Procs), Ref: intn(t, "ref", 64), Prog: chance(t, "progress", 30), Go: chance(t, "go on", 40)}
		o.P = genPayload(t)
		c.Ops = append(c.Ops, o)
	}
	return c
}

type opaqueMessage interface {
	messages.BinaryPayload
	Args() []any
	KwArgs() map[string]any
}

// checkPayload compares a forwarded payload with the one sent.
func checkPayload(what string, p payload, static bool, got opaqueMessage) error {
	if p.Binary && static {
		if !got.PayloadIsBinary() {
			return fmt.Errorf("%s no longer opaque: for a session that handles opaque payloads", what)
		}
		if !bytes.Equal(got.Payload(), p.bytes()) {
			return fmt.Errorf("%s altered: %x instead of %x", what, got.Payload(), p.bytes())
		}
		if got.PayloadSerializer() != p.Ser {
			return fmt.Errorf("%s with another serializer: %d instead of %d", what, got.PayloadSerializer(), p.Ser)
		}
		return nil
	}
	if got.PayloadIsBinary() {
		return fmt.Errorf("%s opaque: for a session that does not handle opaque payloads, or sent plain", what)
	}
	args, kwargs := p.lists()
	if !samePayload(got.Args(), args, got.KwArgs(), kwargs) {
		return fmt.Errorf("%s altered: %s %s instead of %s %s", what, canonList(got.Args()), canonMap(got.KwArgs()), canonList(args), canonMap(kwargs))
	}
	return nil
}

func TestC21_Opaque(t *testing.T) {
	Check(t, Opt{Checks: 5000, Rule: "history of calls and results of 6 sessions, some of whose serializers handle opaque payloads, many calls pending at " +
		"once and answered in any order, progressive or not, payloads opaque (any bytes and serializer id) or plain; non-trivial when opaque payloads " +
		"went to sessions of both kinds"},
		genOpaque, func(c *opaqueCase, r *Rec) error {
			d := wampproto.NewDealer()
			static := func(i int) bool { return c.Static>>i&1 == 1 }
			index := map[uint64]int{}
			for i := 0; i < 6; i++ {
				index[sidOf(i)] = i
				if err := d.AddSession(detailsOf(i, static(i))); err != nil {
					return err
				}
			}
			for p := 0; p < c.Procs; p++ {
				for i := 0; i < 6; i++ {
					if (i+p)%2 == 0 {
						if _, err := d.ReceiveMessage(sidOf(i), messages.NewRegister(1, map[string]any{"invoke": "roundrobin"}, concreteURIs[p])); err != nil {
							return err
						}
					}
				}
			}
			type open struct {
				caller, callee int
				req, inv       uint64
				proc           int
				more           bool // a progressive call of which parts are to come
			}
			var calls []open
			req := uint64(0)
			kinds := map[bool]int{}
			type sent struct { // what was forwarded, to look at again in the end
				what   string
				p      payload
				static bool
				m      opaqueMessage
			}
			var kept []sent
			for i, o := range c.Ops {
				args, kwargs := o.P.lists()
				switch o.K {
				case "call":
					part := slices.IndexFunc(calls, func(x open) bool { return x.more && o.Go })
					of := uint64(req + 1)
					if part >= 0 {
						of, o.S, o.Proc = calls[part].req, calls[part].caller, calls[part].proc
						r.Label("another part")
					} else {
						req++
					}
					options := map[string]any{"receive_progress": o.Ref%2 == 0, "progress": o.Prog}
					msg := messages.NewCallWithFields(&callFields{messages.NewCall(of, options, concreteURIs[o.Proc], args, kwargs).CallFields, o.P})
					// the constructor's message knows no args, so it is for callees that do not need them
					all := true
					for s := 0; s < 6; s++ {
						all = all && ((s+o.Proc)%2 != 0 || static(s))
					}
					if o.P.Ctor && all {
						msg = messages.NewCallBinary(of, options, concreteURIs[o.Proc], o.P.bytes(), o.P.Ser)
						r.Label("call by constructor")
					}
					out, err := d.ReceiveMessage(sidOf(o.S), msg)
					if err != nil {
						return fmt.Errorf("call fails: %w", err)
					}
					inv, ok := out.Message.(*messages.Invocation)
					if !ok {
						return fmt.Errorf("call not routed: %s", show(out, err))
					}
					callee := index[out.Recipient]
					if err := checkPayload("call payload", o.P, static(callee), inv); err != nil {
						return fmt.Errorf("%w (operation %d)", err, i)
					}
					kept = append(kept, sent{"call payload", o.P, static(callee), inv})
					if o.P.Binary {
						kinds[static(callee)]++
					}
					r.Label("invocation opaque %v static %v", o.P.Binary, static(callee))
					if part >= 0 {
						if x := calls[part]; x.inv != inv.RequestID() || x.callee != callee {
							return nil // of another property
						}
						calls[part].more = o.Prog
					} else {
						calls = append(calls, open{o.S, callee, req, inv.RequestID(), o.Proc, o.Prog})
					}
				case "yield":
					if len(calls) == 0 {
						continue
					}
					k := o.Ref % len(calls)
					x := calls[k]
					options := map[string]any{"progress": o.Prog}
					msg := messages.NewYieldWithFields(&yieldFields{messages.NewYield(x.inv, options, args, kwargs).YieldFields, o.P})
					if o.P.Ctor && static(x.caller) {
						msg = messages.NewYieldBinary(x.inv, options, o.P.bytes(), o.P.Ser)
						r.Label("yield by constructor")
					}
					out, err := d.ReceiveMessage(sidOf(x.callee), msg)
					if err != nil {
						return fmt.Errorf("yield fails: %w", err)
					}
					res, ok := out.Message.(*messages.Result)
					if !ok || out.Recipient != sidOf(x.caller) || res.RequestID() != x.req {
						return fmt.Errorf("result for another call: %s instead of request %d of %d", show(out, err), x.req, sidOf(x.caller))
					}
					if err := checkPayload("result payload", o.P, static(x.caller), res); err != nil {
						return fmt.Errorf("%w (operation %d)", err, i)
					}
					kept = append(kept, sent{"result payload", o.P, static(x.caller), res})
					if o.P.Binary {
						kinds[static(x.caller)]++
					}
					r.Label("result opaque %v static %v", o.P.Binary, static(x.caller))
					if prog, _ := res.Details()["progress"].(bool); !prog {
						calls = slices.Delete(calls, k, k+1)
					}
				case "error":
					if len(calls) == 0 {
						continue
					}
					k := o.Ref % len(calls)
					x := calls[k]
					out, err := d.ReceiveMessage(sidOf(x.callee), messages.NewError(68, x.inv, map[string]any{}, errorURI(o.Ref, o.Ref), args, kwargs))
					if err != nil {
						return fmt.Errorf("error fails: %w", err)
					}
					e, ok := out.Message.(*messages.Error)
					args, kwargs = o.P.lists()
					if !ok || out.Recipient != sidOf(x.caller) || e.RequestID() != x.req || !samePayload(e.Args(), args, e.KwArgs(), kwargs) {
						return fmt.Errorf("error for another call: %s instead of request %d of %d", show(out, err), x.req, sidOf(x.caller))
					}
					calls = slices.Delete(calls, k, k+1)
				}
			}
			for _, k := range kept {
				if err := checkPayload(k.what+" kept", k.p, k.static, k.m); err != nil {
					return err
				}
			}
			if kinds[true] > 0 && kinds[false] > 0 {
				r.NonTrivial()
			}
			return nil
		})
}

// A client that joined with a serializer that handles opaque payloads gets
// them: the handshake tells the router.
func TestC21_Handshake(t *testing.T) {
	type c21 struct {
		Join joinCase `json:"join"`
		P    payload  `json:"p"`
	}
	Check(t, Opt{Checks: 800, Rule: "a client and a router's acceptor shake hands (any method and serializer, static or not), the client's session is added to " +
		"a dealer and calls itself and another session with an opaque payload; non-trivial: the serializer handles opaque payloads"},
		func(t *rapid.T) c21 {
			c := c21{genJoinCase(t), genPayload(t)}
			if c.Join.Static = chance(t, "static", 50); c.Join.Static {
				c.Join.NilSer = 0
			}
			c.P.Binary = true
			return c
		},
		func(c *c21, r *Rec) error {
			cs, ss := c.Join.serializers()
			u := c.Join.User
			client, err := u.client(c.Join.Method)
			if err != nil {
				return fmt.Errorf("client: %w", err)
			}
			a := wampproto.NewAcceptor(ss, newServer(u, c.Join.Enabled...))
			j := wampproto.NewJoiner(u.Realm, cs, client)
			data, err := j.SendHello()
			for i := 0; err == nil && i < 4; i++ {
				var toClient []byte
				var done bool
				if toClient, done, err = a.Receive(data); err != nil {
					break
				}
				if data, err = j.Receive(toClient); err != nil || data == nil && done {
					break
				}
				if data == nil {
					break
				}
			}
			if err != nil {
				return fmt.Errorf("handshake fails: %w", err)
			}
			details, err := a.SessionDetails()
			if err != nil {
				return fmt.Errorf("no session: %w", err)
			}
			static := c.Join.Static
			if static {
				r.NonTrivial()
			}
			if details.StaticSerializer() != static {
				return fmt.Errorf("session kind: handles opaque payloads %v, its serializer %v", details.StaticSerializer(), static)
			}
			d := wampproto.NewDealer()
			if err := d.AddSession(details); err != nil {
				return err
			}
			if _, err := d.ReceiveMessage(details.ID(), messages.NewRegister(1, map[string]any{}, "a.b")); err != nil {
				return err
			}
			args, kwargs := c.P.lists()
			out, err := d.ReceiveMessage(details.ID(), messages.NewCallWithFields(&callFields{messages.NewCall(1, map[string]any{}, "a.b", args, kwargs).CallFields, c.P}))
			if err != nil {
				return err
			}
			inv, ok := out.Message.(*messages.Invocation)
			if !ok {
				return fmt.Errorf("call not routed: %s", show(out, err))
			}
			if err := checkPayload("call payload", c.P, static, inv); err != nil {
				return err
			}
			out, err = d.ReceiveMessage(details.ID(), messages.NewYieldWithFields(&yieldFields{messages.NewYield(inv.RequestID(), map[string]any{}, args, kwargs).YieldFields, c.P}))
			if err != nil {
				return err
			}
			res, ok := out.Message.(*messages.Result)
			if !ok {
				return fmt.Errorf("yield not forwarded: %s", show(out, err))
			}
			return checkPayload("result payload", c.P, static, res)
		})
}

// A call made with NewCallBinary has no Args, so it reaches a callee that does
// not handle opaque payloads without its payload.
func TestC21_KnownConstructor(t *testing.T) {
	Known(t, "constructed-binary-call", func() bool {
		d := wampproto.NewDealer()
		_ = d.AddSession(detailsOf(0, true))
		_ = d.AddSession(detailsOf(1, false))
		_, _ = d.ReceiveMessage(sidOf(1), messages.NewRegister(1, map[string]any{}, "a.b"))
		data, _ := serializers.SerializePayload(2, []any{"x"}, nil)
		out, err := d.ReceiveMessage(sidOf(0), messages.NewCallBinary(1, map[string]any{}, "a.b", data, 2))
		if err != nil || out == nil {
			return false
		}
		inv, ok := out.Message.(*messages.Invocation)
		return ok && !inv.PayloadIsBinary() && len(inv.Args()) == 0
	})
}
