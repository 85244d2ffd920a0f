// Reads documents, one JSON array of code points per line, and writes down
// what styx-go makes of each.  It decides nothing.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"

	styx "github.com/bearcove/styx/implementations/styx-go"
)

type J = []any

func cps(s string) J {
	r := J{}
	for _, c := range s {
		r = append(r, int(c))
	}
	return r
}

var names = map[styx.ScalarKind]string{styx.ScalarBare: "Bare", styx.ScalarQuoted: "Quoted", styx.ScalarRaw: "Raw", styx.ScalarHeredoc: "Heredoc"}

func span(s styx.Span) J { return J{s.Start, s.End} }
func entries(es []*styx.Entry) J {
	r := J{}
	for _, e := range es {
		r = append(r, J{value(e.Key), value(e.Value)})
	}
	return r
}
func value(v *styx.Value) J {
	tag := J{}
	if v.Tag != nil {
		tag = append(J{0}, cps(v.Tag.Name)...)
	}
	switch v.PayloadKind {
	case styx.PayloadScalar:
		return J{tag, "scalar", names[v.Scalar.Kind], cps(v.Scalar.Text), J{}, J{}, span(v.Span), span(v.Scalar.Span)}
	case styx.PayloadSequence:
		items := J{}
		for _, i := range v.Sequence.Items {
			items = append(items, value(i))
		}
		return J{tag, "seq", "", J{}, items, J{}, span(v.Span), span(v.Sequence.Span)}
	case styx.PayloadObject:
		return J{tag, "obj", "", J{}, J{}, entries(v.Object.Entries), span(v.Span), span(v.Object.Span)}
	}
	return J{tag, "none", "", J{}, J{}, J{}, span(v.Span), span(v.Span)}
}
func read(src string) (a J) {
	defer func() {
		if e := recover(); e != nil {
			a = J{"crash", fmt.Sprint(e)}
		}
	}()
	doc, err := styx.Parse(src)
	if err != nil {
		if p, ok := err.(*styx.ParseError); ok {
			return J{"error", p.Message, span(p.Span)}
		}
		return J{"crash", err.Error()}
	}
	return J{"tree", entries(doc.Entries)}
}
func main() {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(out)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var cs []rune
		if err := json.Unmarshal(line, &cs); err != nil {
			panic(err)
		}
		enc.Encode(read(string(cs)))
		out.Flush()
	}
}
