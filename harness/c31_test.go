package harness

import (
	"encoding/hex"
	"errors"
	"fmt"
	"testing"
	"time"

	"github.com/xconnio/wampproto-go/auth"
	"github.com/xconnio/wampproto-go/serializers"
	"github.com/xconnio/wampproto-go/transports"
	"pgregory.net/rapid"
)

// crowd is one authenticator for many users, as a router has it.
type crowd struct {
	methods []auth.Method
	users   map[string]*server
}

func (c *crowd) Methods() []auth.Method { return c.methods }

func (c *crowd) Authenticate(req auth.Request) (auth.Response, error) {
	if s := c.users[req.AuthID()]; s != nil {
		own := *s
		return own.Authenticate(req)
	}
	return nil, errors.New("unknown user")
}

// job is something one goroutine does again and again.
type job struct {
	Kind    string       `json:"kind"`
	Msg     *msgCase     `json:"msg,omitempty"`
	Payload *payloadCase `json:"payload,omitempty"`
	Join    *joinCase    `json:"join,omitempty"`
	CRA     *craCase     `json:"cra,omitempty"`
	Sign    *signCase    `json:"sign,omitempty"`
	Forged  bool         `json:"forged,omitempty"`
	Size    int          `json:"size,omitempty"`
	Bad     []byte       `json:"bad,omitempty"`
}

func genJob(t *rapid.T, kinds []string) job {
	j := job{Kind: pick(t, "kind", kinds...)}
	switch j.Kind {
	case "message":
		c := genMsgCase(t)
		j.Msg = &c
		if chance(t, "bad", 30) {
			j.Bad = rapid.SliceOfN(rapid.Byte(), 1, 12).Draw(t, "bytes")
		}
	case "payload":
		c := genPayloadCase(t)
		j.Payload = &c
	case "join":
		c := genJoinCase(t)
		c.NilAuth, c.NilSer, c.User.Iter = 0, 0, min(c.User.Iter, 10)
		if c.User.Iter == 0 && c.User.Salt != "" {
			c.User.Iter = 3
		}
		j.Join, j.Forged = &c, chance(t, "forged", 25) && c.Method != "anonymous"
	case "cra":
		c := craCase{Key: genSecretBytes(t), Challenge: genString(t), Other: genString(t), OtherKey: genSecretBytes(t),
			Pos: intn(t, "pos", 64), Bit: intn(t, "bit", 8), Salt: genString(t), Secret: genString(t),
			Iter: between(t, "iter", 1, 5), Len: pick(t, "len", 16, 32, 40), NumKind: "int"}
		j.CRA = &c
	case "sign":
		c := signCase{Seed: gen32(t, "seed"), Challenge: hex.EncodeToString(rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "challenge"))}
		j.Sign = &c
	case "frames":
		j.Size = 1 << between(t, "size", 9, 24)
	}
	return j
}

// shop is what the jobs have in common.
type shop struct {
	plain, static map[string]serializers.Serializer
	crowd         *crowd
	clients       map[*job]auth.ClientAuthenticator
}

func (j *job) do(x *shop) error {
	r := &Rec{labels: map[string]int{}}
	switch j.Kind {
	case "message":
		ser := x.plain[j.Msg.Format]
		data, err := ser.Serialize(j.Msg.Msg.build())
		if err != nil {
			return err
		}
		if len(j.Bad) > 0 {
			_, _ = ser.Deserialize(append([]byte(nil), j.Bad...))
			_, _ = ser.Deserialize(append([]byte(nil), data[:len(data)-1]...))
		}
		got, err := ser.Deserialize(data)
		if err != nil {
			return err
		}
		return j.Msg.Msg.sameFields(got)
	case "payload":
		return runC05(j.Payload, r)
	case "join":
		c := *j.Join
		ser := x.plain[c.Format]
		if c.Static {
			ser = x.static[c.Format]
		}
		c.client = x.clients[j]
		err := c.join(nil, x.crowd, ser, ser)
		if j.Forged && err == nil {
			return errors.New("joined with wrong credentials")
		}
		if j.Forged {
			return nil
		}
		return err
	case "cra":
		return runCRA(j.CRA, r)
	case "sign":
		u := User{Seed: j.Sign.Seed}
		client, err := auth.NewCryptoSignAuthenticator("x", j.Sign.Seed, nil)
		if err != nil {
			return err
		}
		if got := client.AuthExtra()["pubkey"]; got != u.pubkey() {
			return fmt.Errorf("public key %v instead of %s", got, u.pubkey())
		}
		ch, err := auth.GenerateCryptoSignChallenge()
		if err != nil {
			return err
		}
		sig, err := auth.SignCryptoSignChallenge(ch, must(hex.DecodeString(j.Sign.Seed+u.pubkey())))
		if err != nil {
			return err
		}
		want := u.proof("cryptosign", ch)
		if len(sig) < 128 || sig[:128] != want[:128] {
			return fmt.Errorf("signature of %s: %s instead of %s", ch, sig, want)
		}
	case "frames":
		hs, err := transports.SendHandshake(transports.NewHandshake(transports.SerializerCbor, j.Size))
		if err != nil {
			return err
		}
		h, err := transports.ReceiveHandshake(hs)
		if err != nil || h.MaxMessageSize() != j.Size || h.Serializer() != transports.SerializerCbor {
			return fmt.Errorf("handshake %x: %v %v", hs, h, err)
		}
		hd := transports.SendMessageHeader(transports.NewMessageHeader(transports.MessagePing, j.Size-1))
		back, err := transports.ReceiveMessageHeader(hd)
		if err != nil || back.Length() != j.Size-1 || back.Kind() != transports.MessagePing {
			return fmt.Errorf("header %x: %v %v", hd, back, err)
		}
		now := time.Unix(int64(j.Size)*1000, 0).UTC()
		if unix, _, ok := parseISO(auth.ISO8601(now)); !ok || unix != now.Unix() {
			return fmt.Errorf("timestamp of %v: %s", now, auth.ISO8601(now))
		}
	}
	return nil
}

type crowdCase struct {
	G      int   `json:"g"`
	Rounds int   `json:"rounds"`
	Jobs   []job `json:"jobs"`
	Share  bool  `json:"share"` // the clients' authenticators are shared too
}

func genCrowd(t *rapid.T, kinds ...string) crowdCase {
	c := crowdCase{G: between(t, "goroutines", 2, 8), Rounds: between(t, "rounds", 1, 12), Share: chance(t, "share", 50)}
	for i := between(t, "jobs", 1, 5); i > 0; i-- {
		j := genJob(t, kinds)
		if j.Join != nil {
			j.Join.User.AuthID = fmt.Sprintf("%d %s", i, j.Join.User.AuthID)
			j.Join.Enabled = methodNames
			if chance(t, "samegrant", 50) {
				j.Join.User.GrantID = j.Join.User.AuthID
			}
		}
		c.Jobs = append(c.Jobs, j)
	}
	return c
}

func (c *crowdCase) run(r *Rec) error {
	x := &shop{plain: map[string]serializers.Serializer{}, static: map[string]serializers.Serializer{}, clients: map[*job]auth.ClientAuthenticator{},
		crowd: &crowd{users: map[string]*server{}}}
	for _, f := range formats {
		x.plain[f] = serializer(f)
		x.static[f] = &staticSerializer{serializer(f)}
	}
	for _, m := range methodNames {
		x.crowd.methods = append(x.crowd.methods, auth.Method(m))
	}
	for i := range c.Jobs {
		j := &c.Jobs[i]
		if j.Join == nil {
			continue
		}
		u := j.Join.User
		if c.Share {
			client, err := u.client(j.Join.Method)
			if err != nil {
				return errorf("client authenticator: %v", err)
			}
			x.clients[j] = client
		}
		if j.Forged {
			u.Ticket, u.Secret, u.Seed = u.Ticket+"x", u.Secret+"x", flip(u.Seed)
		}
		x.crowd.users[u.AuthID] = newServer(u)
	}
	var todo []*job
	for i := range c.Jobs {
		j := &c.Jobs[i]
		if err := j.do(x); err != nil { // then it is no matter of company
			r.Label("%s fails alone", j.Kind)
			continue
		}
		todo = append(todo, j)
		r.Label("%s", j.Kind)
	}
	if len(todo) == 0 {
		return nil
	}
	counts, errs := make([]int, c.G), make([]error, c.G)
	for g := range counts {
		counts[g] = c.Rounds * len(todo)
	}
	r.Evals(c.G * c.Rounds * len(todo))
	spans := together(counts, func(g, i int) {
		if errs[g] != nil {
			return
		}
		j := todo[(g+i)%len(todo)]
		if err := safely(func() error { return j.do(x) }); err != nil {
			errs[g] = fmt.Errorf("%s: %w", j.Kind, err)
		}
	})
	if overlapping(spans) > 0 {
		r.NonTrivial()
	}
	for _, err := range errs {
		if err != nil {
			return fmt.Errorf("works alone, not in company: %w", err)
		}
	}
	return nil
}

func flip(seed string) string {
	raw := must(hex.DecodeString(seed))
	raw[5] ^= 0x40
	return hex.EncodeToString(raw)
}

// C31: what is done at the same time gives what it gives alone.
func TestC31_Codecs(t *testing.T) {
	Check(t, Opt{Checks: 300, Deadline: 120 * time.Second, Repeat: 20, Rule: "2-8 goroutines encode and decode the same and different generated messages (also malformed ones) with shared " +
		"serializers, encode and decode payloads, and use the raw-socket functions, up to 12 rounds, each result being the one that a goroutine alone gets; non-trivial: the " +
		"goroutines overlapped in time"},
		func(t *rapid.T) crowdCase { return genCrowd(t, "message", "message", "payload", "frames") },
		func(c *crowdCase, r *Rec) error { return c.run(r) })
}

func TestC31_Handshakes(t *testing.T) {
	Check(t, Opt{Checks: 150, Deadline: 120 * time.Second, Repeat: 20, Rule: "2-8 goroutines shake hands as the same and as different users (every method, some with wrong credentials) with one shared " +
		"authenticator and shared serializers, derive keys, sign and verify, up to 12 rounds, each result being the one that a goroutine alone gets; non-trivial: the " +
		"goroutines overlapped in time"},
		func(t *rapid.T) crowdCase { return genCrowd(t, "join", "join", "join", "cra", "sign") },
		func(c *crowdCase, r *Rec) error { return c.run(r) })
}
