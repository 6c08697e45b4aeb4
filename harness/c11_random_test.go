package harness

import (
	"bufio"
	"bytes"
	"fmt"
	"math"
	"os"
	"os/exec"
	"testing"

	"encoding/json"

	"github.com/xconnio/wampproto-go/auth"
	"pgregory.net/rapid"
)

// generatedTexts are what has to be random in one challenge of each kind and one key pair.
func generatedTexts() (map[string]string, error) {
	ch, err := auth.GenerateCryptoSignChallenge()
	if err != nil {
		return nil, fmt.Errorf("cryptosign challenge: %w", err)
	}
	_, priv, err := auth.GenerateCryptoSignKeyPair()
	if err != nil {
		return nil, fmt.Errorf("key pair: %w", err)
	}
	text, err := auth.GenerateWAMPCRAChallenge(1, "a", "b", "c")
	if err != nil {
		return nil, fmt.Errorf("WAMP-CRA challenge: %w", err)
	}
	var f struct{ Nonce string }
	if err := json.Unmarshal([]byte(text), &f); err != nil {
		return nil, fmt.Errorf("WAMP-CRA challenge is malformed: %w: %q", err, text)
	}
	return map[string]string{"cryptosign challenge": ch, "private key": priv, "WAMP-CRA nonce": f.Nonce}, nil
}

// entropyOf is the entropy in bits of what occurs, by its counts.
func entropyOf[K comparable](counts map[K]int, n int) float64 {
	h := 0.0
	for _, c := range counts {
		p := float64(c) / float64(n)
		h -= p * math.Log2(p)
	}
	return h
}

// spread is the number of bits that the characters of texts of equal length have at least, a character
// that another one (to the left) tells is not counted. It does not depend on how bytes became characters.
func spread(texts []string) float64 {
	total := 0.0
	var own []float64
	for j := range texts[0] {
		counts := map[byte]int{}
		for _, s := range texts {
			counts[s[j]]++
		}
		h := entropyOf(counts, len(texts))
		own = append(own, h)
		for i := 0; i < j && h > 0; i++ {
			both := map[[2]byte]int{}
			for _, s := range texts {
				both[[2]byte{s[i], s[j]}]++
			}
			// what the other one tells; some 0.7 bits are seen by chance among 64x64 pairs in 4096 texts
			if told := own[i] + h - entropyOf(both, len(texts)); told > 2 {
				h = 0
			}
		}
		total += h
	}
	return total
}

// C11: all of what is generated is random, not only some of it.
func TestC11_Random(t *testing.T) {
	type c11 struct {
		N int `json:"n"`
	}
	want := map[string]float64{"cryptosign challenge": 250, "private key": 250, "WAMP-CRA nonce": 100}
	Check(t, Opt{Checks: 3, Rule: "samples of 4096-5000 challenges, private keys and nonces: the entropy of their characters " +
		"that no other character tells adds up to nearly that of 32 (nonce: 16) random bytes; every case is non-trivial"},
		func(t *rapid.T) c11 { return c11{between(t, "n", 4096, 5000)} },
		func(c *c11, r *Rec) error {
			r.NonTrivial()
			r.Evals(3 * c.N)
			texts := map[string][]string{}
			for i := 0; i < c.N; i++ {
				m, err := generatedTexts()
				if err != nil {
					return err
				}
				for k, s := range m {
					if len(texts[k]) > 0 && len(texts[k][0]) != len(s) {
						return errorf("%s of %d characters, another of %d", k, len(texts[k][0]), len(s))
					}
					texts[k] = append(texts[k], s)
				}
			}
			for k, list := range texts {
				if bits := spread(list); bits < want[k] {
					return errorf("%s: only %.1f bits differ at random among %d of them, such as %q and %q", k, bits, c.N, list[0],
						list[1])
				}
			}
			return nil
		})
}

func childChallenges() {
	w := bufio.NewWriter(os.Stdout)
	defer w.Flush()
	for i := 0; i < 20; i++ {
		m, err := generatedTexts()
		if err != nil {
			fmt.Fprintln(w, err)
			return
		}
		for _, s := range m {
			fmt.Fprintln(w, s)
		}
	}
}

// C11: what one process generates no other one does.
func TestC11_Processes(t *testing.T) {
	type c11 struct {
		Processes int  `json:"processes"`
		Together  bool `json:"together"`
	}
	Check(t, Opt{Checks: 4, Rule: "challenges, keys and nonces of 2-5 fresh processes, started one after another or together, " +
		"60 each, are all distinct; always non-trivial"},
		func(t *rapid.T) c11 { return c11{between(t, "processes", 2, 5), chance(t, "together", 50)} },
		func(c *c11, r *Rec) error {
			r.NonTrivial()
			r.Evals(60 * c.Processes)
			seen := map[string]int{}
			for i, out := range children("challenges", c.Processes, c.Together) {
				list := bytes.Fields(out)
				if len(list) != 60 {
					return errorf("process %d: %s", i, clip(out))
				}
				for _, s := range list {
					if other, again := seen[string(s)]; again {
						return errorf("process %d generates %q as process %d did", i, s, other)
					}
					seen[string(s)] = i
				}
			}
			return nil
		})
}

// children runs so many processes of this binary and returns what each of them printed.
func children(what string, n int, together bool) [][]byte {
	cmds := make([]*exec.Cmd, n)
	outs := make([]bytes.Buffer, n)
	wait := func(i int) {
		if err := cmds[i].Wait(); err != nil {
			panic("HARNESS-ERROR: child: " + err.Error())
		}
	}
	for i := range cmds {
		cmds[i] = exec.Command(os.Args[0])
		cmds[i].Env = append(os.Environ(), "VERIF_CHILD="+what)
		cmds[i].Stdout = &outs[i]
		if err := cmds[i].Start(); err != nil {
			panic("HARNESS-ERROR: " + err.Error())
		}
		if !together {
			wait(i)
		}
	}
	all := make([][]byte, n)
	for i := range cmds {
		if together {
			wait(i)
		}
		all[i] = outs[i].Bytes()
	}
	return all
}
