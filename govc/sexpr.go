package main

import (
	"fmt"
	"os"
	"strings"
)

// SX is a parsed s-expression: either an atom or a list.
type SX struct {
	Atom string
	List []*SX
	Line int
	File string
}

func (s *SX) IsAtom() bool { return s.List == nil && s.Atom != "" }

func (s *SX) Head() string {
	if s.List != nil && len(s.List) > 0 && s.List[0].IsAtom() {
		return s.List[0].Atom
	}
	return ""
}

func (s *SX) String() string {
	if s.IsAtom() {
		return s.Atom
	}
	p := make([]string, len(s.List))
	for i, c := range s.List {
		p[i] = c.String()
	}
	return "(" + strings.Join(p, " ") + ")"
}

func (s *SX) Where() string { return fmt.Sprintf("%s:%d", s.File, s.Line) }

func parseSXFile(path string) ([]*SX, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	return parseSX(string(b), path)
}

func parseSX(src, file string) ([]*SX, error) {
	var out []*SX
	var stack []*SX
	line := 1
	i := 0
	add := func(x *SX) {
		if len(stack) == 0 {
			out = append(out, x)
		} else {
			t := stack[len(stack)-1]
			t.List = append(t.List, x)
		}
	}
	for i < len(src) {
		c := src[i]
		switch {
		case c == '\n':
			line++
			i++
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case c == ';':
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case c == '(':
			stack = append(stack, &SX{List: []*SX{}, Line: line, File: file})
			i++
		case c == ')':
			if len(stack) == 0 {
				return nil, fmt.Errorf("%s:%d: unexpected )", file, line)
			}
			x := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			add(x)
			i++
		case c == '"':
			j := i + 1
			for j < len(src) && src[j] != '"' {
				j++
			}
			add(&SX{Atom: src[i : j+1], Line: line, File: file})
			i = j + 1
		default:
			j := i
			for j < len(src) && !strings.ContainsRune(" \t\r\n();", rune(src[j])) {
				j++
			}
			add(&SX{Atom: src[i:j], Line: line, File: file})
			i = j
		}
	}
	if len(stack) != 0 {
		return nil, fmt.Errorf("%s: unbalanced ( opened at line %d", file, stack[0].Line)
	}
	return out, nil
}

func (s *SX) replace(m map[string]*SX) *SX {
	n := *s
	if s.IsAtom() {
		if v, ok := m[s.Atom]; ok {
			return v
		}
		for k, v := range m {
			if v.IsAtom() {
				n.Atom = strings.ReplaceAll(n.Atom, k, v.Atom)
			}
		}
		return &n
	}
	n.List = make([]*SX, len(s.List))
	for i, c := range s.List {
		n.List[i] = c.replace(m)
	}
	return &n
}
