package lib

import (
	"encoding/xml"
	"fmt"
	"io"
	"regexp"
	"sort"
	"strings"
)

// Node is an element or a text of the parsed output.
type Node struct {
	Tag   string // "" for a text
	Attrs map[string]string
	Text  string
	Kids  []*Node
	Up    *Node
}

func parse(s string, strict bool) (*Node, error) {
	s = strings.TrimPrefix(s, "<!DOCTYPE html>")
	d := xml.NewDecoder(strings.NewReader("<root>" + s + "</root>"))
	d.Strict = strict
	d.Entity = xml.HTMLEntity
	if !strict {
		d.AutoClose = xml.HTMLAutoClose
	}
	root := &Node{Tag: "#"}
	cur := root
	for {
		t, err := d.Token()
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, err
		}
		switch t := t.(type) {
		case xml.StartElement:
			n := &Node{Tag: name(t.Name), Attrs: map[string]string{}, Up: cur}
			for _, a := range t.Attr {
				k := name(a.Name)
				if _, dup := n.Attrs[k]; dup {
					return nil, fmt.Errorf("duplicate attribute %q on <%s>", k, n.Tag)
				}
				n.Attrs[k] = a.Value
			}
			cur.Kids = append(cur.Kids, n)
			cur = n
		case xml.EndElement:
			if cur.Up == nil || cur.Tag != name(t.Name) {
				return nil, fmt.Errorf("unexpected </%s> in <%s>", t.Name.Local, cur.Tag)
			}
			cur = cur.Up
		case xml.CharData:
			if len(cur.Kids) > 0 && cur.Kids[len(cur.Kids)-1].Tag == "" {
				cur.Kids[len(cur.Kids)-1].Text += string(t)
			} else {
				cur.Kids = append(cur.Kids, &Node{Text: string(t), Up: cur})
			}
		case xml.Comment:
			cur.Kids = append(cur.Kids, &Node{Tag: "!--", Text: string(t), Up: cur})
		case xml.Directive:
			return nil, fmt.Errorf("unexpected directive %q", string(t))
		}
	}
	if cur != root || len(root.Kids) != 1 {
		return nil, fmt.Errorf("unbalanced elements")
	}
	r := root.Kids[0]
	r.Up = nil
	return r, nil
}

func name(n xml.Name) string {
	if n.Space != "" && !strings.Contains(n.Space, "/") {
		return n.Space + ":" + n.Local
	}
	return n.Local
}

// ParseXML parses an XHTML output as strictly as XML requires.
func ParseXML(s string) (*Node, error) { return parse(s, true) }

// ParseHTML parses an HTML output (void elements, boolean attributes).
func ParseHTML(s string) (*Node, error) { return parse(s, false) }

// DOM converts the source and parses the result.
// garbage matches what the formatting of pointers, or of values of a wrong type, leaves in the output
var garbage = regexp.MustCompile(`0x[0-9a-f]{6,}|%![a-z]\(|&amp;\{\[|&amp;types\.|<nil>`)

func DOM(src string, o Opts) (*Node, error) {
	out, _, err := Convert(src, o)
	if err != nil {
		return nil, fmt.Errorf("conversion failed: %w", err)
	}
	if g := garbage.FindString(out); g != "" && !strings.Contains(src, "0x") && !strings.Contains(src, "%!") {
		return nil, fmt.Errorf("internals (%s) in the output\n%s", g, out)
	}
	var n *Node
	if strings.HasPrefix(o.Backend, "xhtml") {
		n, err = ParseXML(out)
	} else {
		n, err = ParseHTML(out)
	}
	if err != nil {
		return nil, fmt.Errorf("the output is not well-formed: %w\n%s", err, out)
	}
	return n, nil
}

// HasClass tells if the node has the given class.
func (n *Node) HasClass(c string) bool {
	for _, f := range strings.Fields(n.Attrs["class"]) {
		if f == c {
			return true
		}
	}
	return false
}

// Is tells if the node matches tag.class (either may be empty).
func (n *Node) Is(sel string) bool {
	tag, class, _ := strings.Cut(sel, ".")
	return n.Tag != "" && (tag == "" || n.Tag == tag) && (class == "" || n.HasClass(class))
}

// All returns all the descendants which match, in document order.
func (n *Node) All(sel string) []*Node {
	r := []*Node{}
	n.Walk(func(m *Node) bool {
		if m != n && m.Is(sel) {
			r = append(r, m)
		}
		return true
	})
	return r
}

// First returns the first descendant which matches, or nil.
func (n *Node) First(sel string) *Node {
	if a := n.All(sel); len(a) > 0 {
		return a[0]
	}
	return nil
}

// Children returns the element children (no text).
func (n *Node) Children() []*Node {
	r := []*Node{}
	for _, k := range n.Kids {
		if k.Tag != "" {
			r = append(r, k)
		}
	}
	return r
}

// Child returns the first child which matches, or nil.
func (n *Node) Child(sel string) *Node {
	for _, k := range n.Kids {
		if k.Is(sel) {
			return k
		}
	}
	return nil
}

// Walk visits the node and its descendants in document order.
func (n *Node) Walk(f func(*Node) bool) {
	if !f(n) {
		return
	}
	for _, k := range n.Kids {
		k.Walk(f)
	}
}

// Content returns the concatenated text.
func (n *Node) Content() string {
	sb := &strings.Builder{}
	n.Walk(func(m *Node) bool {
		if m.Tag == "" {
			sb.WriteString(m.Text)
		}
		return m.Tag != "!--"
	})
	return sb.String()
}

// Inline returns the trimmed text content with collapsed whitespaces.
func (n *Node) Inline() string { return strings.Join(strings.Fields(n.Content()), " ") }

// Canon is a canonical form: sorted attributes, whitespace-only texts between elements dropped.
func (n *Node) Canon() string {
	sb := &strings.Builder{}
	n.canon(sb, false)
	return sb.String()
}

func (n *Node) canon(sb *strings.Builder, pre bool) {
	if n.Tag == "" {
		if pre {
			fmt.Fprintf(sb, "%q", n.Text)
		} else if t := strings.Join(strings.Fields(n.Text), " "); t != "" {
			fmt.Fprintf(sb, "%q", t)
		}
		return
	}
	keys := []string{}
	for k := range n.Attrs {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	sb.WriteString("<" + n.Tag)
	for _, k := range keys {
		fmt.Fprintf(sb, " %s=%q", k, n.Attrs[k])
	}
	sb.WriteString(">")
	for _, k := range n.Kids {
		k.canon(sb, pre || n.Tag == "pre")
	}
	sb.WriteString("</" + n.Tag + ">")
}

// Brief prints the structure on one line, for messages.
func (n *Node) Brief() string {
	s := n.Canon()
	if len(s) > 1500 {
		s = s[:1500] + "..."
	}
	return s
}

// IDs returns all the id attributes in document order.
func (n *Node) IDs() []string {
	r := []string{}
	n.Walk(func(m *Node) bool {
		if id, ok := m.Attrs["id"]; ok {
			r = append(r, id)
		}
		return true
	})
	return r
}

// Words returns the maximal runs of letters and digits of the text content that start with the prefix.
func Words(s string, prefix string) []string {
	r := []string{}
	for _, w := range strings.FieldsFunc(s, func(c rune) bool {
		return !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9')
	}) {
		if strings.HasPrefix(w, prefix) {
			r = append(r, w)
		}
	}
	return r
}
