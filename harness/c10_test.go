package harness

import (
	"slices"
	"testing"

	"github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/auth"
	"github.com/xconnio/wampproto-go/messages"
	"pgregory.net/rapid"
)

type methodCase struct {
	Format   string   `json:"format"`
	Bytes    bool     `json:"bytes"`
	Enabled  []string `json:"enabled"`
	Proposed []string `json:"proposed"`
	User     User     `json:"user"`
}

func genMethodCase(t *rapid.T) methodCase {
	c := methodCase{Format: pick(t, "format", formats...), Bytes: chance(t, "bytes", 40), User: genUser(t, fmtJSON)}
	c.User.Iter = min(c.User.Iter, 10)
	for i := between(t, "enabled", 0, 5); i > 0; i-- {
		c.Enabled = append(c.Enabled, methodNames[intn(t, "method", 4)])
	}
	proposals := append([]string{"scram", "Ticket", "anonymous ", "cookie", "é", "tick", "", "", "default", "*", "any", "none", "ANONYMOUS",
		"anonymous\x00", "wamp-cra", "ticket,anonymous", "_"}, methodNames...)
	proposals = append(proposals, methodNames...)
	for i := between(t, "proposed", 0, 6); i > 0; i-- {
		c.Proposed = append(c.Proposed, proposals[intn(t, "method", len(proposals))])
	}
	return c
}

// choice is the method the specification selects, or "".
func (c *methodCase) choice() string {
	if len(c.Proposed) == 0 && slices.Contains(c.Enabled, "anonymous") {
		return "anonymous"
	}
	for _, m := range c.Proposed {
		if slices.Contains(c.Enabled, m) {
			return m
		}
	}
	return ""
}

// C10: the first proposed method that is enabled is used.
func TestC10_Select(t *testing.T) {
	Check(t, Opt{Checks: 5000, Rule: "lists of enabled methods and of proposed ones (unknown names, repetitions, none), " +
		"given to SelectAuthMethod and, in a HELLO of a valid user, to an acceptor; non-trivial: at least two enabled and " +
		"two proposed methods, or none proposed"},
		genMethodCase, runC10)
}

func runC10(c *methodCase, r *Rec) error {
	want := c.choice()
	r.Label("choice %q", want)
	if len(c.Enabled) > 1 && len(c.Proposed) > 1 || len(c.Proposed) == 0 {
		r.NonTrivial()
	}
	if len(c.Proposed) == 0 {
		r.Label("none proposed")
	}
	srv := newServer(c.User, c.Enabled...)
	got, err := auth.SelectAuthMethod(srv.methods, slices.Clone(c.Proposed))
	if want == "" && err == nil {
		return errorf("method selected: %q from %q of %q", got, c.Proposed, c.Enabled)
	}
	if want != "" && (err != nil || string(got) != want) {
		return errorf("other method selected: %q (%v) instead of %q from %q of %q", got, err, want, c.Proposed, c.Enabled)
	}
	a := wampproto.NewAcceptor(serializer(c.Format), srv)
	reply, err := step(a, c.Format, c.Bytes, c.User.hello(c.Proposed...))
	for _, q := range srv.log {
		if q.method != want {
			return errorf("authenticator consulted: for %q instead of %q, from %q of %q", q.method, want, c.Proposed, c.Enabled)
		}
	}
	if want == "" {
		if err == nil && reply.Type() != messages.MessageTypeAbort {
			return errorf("handshake goes on without a method: %T for %q of %q", reply, c.Proposed, c.Enabled)
		}
		if _, err := a.SessionDetails(); err == nil {
			return errorf("session without a method: for %q of %q", c.Proposed, c.Enabled)
		}
		return nil
	}
	if err != nil {
		return errorf("handshake refused: %v for %q of %q", err, c.Proposed, c.Enabled)
	}
	used := ""
	switch m := reply.(type) {
	case *messages.Challenge:
		used = m.AuthMethod()
		if want == "anonymous" {
			return errorf("challenge for anonymous: of method %q", used)
		}
		challenge, _ := challengeOf(m)
		if reply, err = step(a, c.Format, c.Bytes, messages.NewAuthenticate(c.User.proof(want, challenge), nil)); err != nil {
			return errorf("handshake refused: %v for %q of %q", err, c.Proposed, c.Enabled)
		}
	}
	w, ok := reply.(*messages.Welcome)
	if !ok {
		return errorf("handshake not completed: %T for %q of %q", reply, c.Proposed, c.Enabled)
	}
	if m, _ := w.Details()["authmethod"].(string); m != want || used != "" && used != want {
		return errorf("other method used: challenge %q welcome %q instead of %q", used, m, want)
	}
	d, err := a.SessionDetails()
	if err != nil || d.AuthMethod() != want {
		return errorf("other method in the session: %v instead of %q", d, want)
	}
	for _, q := range srv.log {
		if q.method != want {
			return errorf("authenticator consulted: for %q instead of %q, from %q of %q", q.method, want, c.Proposed, c.Enabled)
		}
	}
	return nil
}
