package main

import (
	"errors"
	"strconv"
	"strings"
)

// Value is a parsed RESP reply. This reader is independent of the code under test.
type Value struct {
	T   byte   // '+', '-', ':', '$', '*'
	S   string // '+', '-', '$'
	N   int64
	Nil bool
	A   []*Value
}

var errMore = errors.New("incomplete")

func parseLine(b []byte) (string, int, error) {
	for i := 0; i < len(b); i++ {
		if b[i] == '\r' {
			if i+1 >= len(b) {
				return "", 0, errMore
			}
			if b[i+1] != '\n' {
				return "", 0, errors.New("CR without LF")
			}
			return string(b[:i]), i + 2, nil
		}
		if b[i] == '\n' {
			return "", 0, errors.New("LF without CR")
		}
	}
	return "", 0, errMore
}

// parseValue reads one reply strictly; errMore if more bytes are needed.
func parseValue(b []byte) (*Value, int, error) {
	if len(b) == 0 {
		return nil, 0, errMore
	}
	switch b[0] {
	case '+', '-':
		s, n, err := parseLine(b[1:])
		if err != nil {
			return nil, 0, err
		}
		return &Value{T: b[0], S: s}, n + 1, nil
	case ':':
		s, n, err := parseLine(b[1:])
		if err != nil {
			return nil, 0, err
		}
		k, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			return nil, 0, errors.New("bad integer " + strconv.Quote(s))
		}
		return &Value{T: ':', N: k}, n + 1, nil
	case '$':
		s, n, err := parseLine(b[1:])
		if err != nil {
			return nil, 0, err
		}
		k, err := strconv.Atoi(s)
		if err != nil || k < -1 {
			return nil, 0, errors.New("bad bulk length " + strconv.Quote(s))
		}
		n++
		if k == -1 {
			return &Value{T: '$', Nil: true}, n, nil
		}
		if len(b) < n+k+2 {
			return nil, 0, errMore
		}
		if b[n+k] != '\r' || b[n+k+1] != '\n' {
			return nil, 0, errors.New("bulk not terminated")
		}
		return &Value{T: '$', S: string(b[n : n+k])}, n + k + 2, nil
	case '*':
		s, n, err := parseLine(b[1:])
		if err != nil {
			return nil, 0, err
		}
		k, err := strconv.Atoi(s)
		if err != nil || k < -1 {
			return nil, 0, errors.New("bad array length " + strconv.Quote(s))
		}
		n++
		if k == -1 {
			return &Value{T: '*', Nil: true}, n, nil
		}
		v := &Value{T: '*'}
		for i := 0; i < k; i++ {
			e, m, err := parseValue(b[n:])
			if err != nil {
				return nil, 0, err
			}
			v.A = append(v.A, e)
			n += m
		}
		return v, n, nil
	}
	return nil, 0, errors.New("bad type byte " + strconv.Quote(string(b[:1])))
}

func (v *Value) String() string {
	if v == nil {
		return "(none)"
	}
	switch v.T {
	case '+':
		return "+" + v.S
	case '-':
		return "-" + strconv.Quote(v.S)
	case ':':
		return ":" + strconv.FormatInt(v.N, 10)
	case '$':
		if v.Nil {
			return "nil"
		}
		return short(v.S)
	}
	if v.Nil {
		return "nilarray"
	}
	var p []string
	for _, e := range v.A {
		p = append(p, e.String())
	}
	return "[" + strings.Join(p, " ") + "]"
}

func short(s string) string {
	if len(s) > 60 {
		return strconv.Quote(s[:40]) + "...(" + strconv.Itoa(len(s)) + " bytes)"
	}
	return strconv.Quote(s)
}

// encode renders a request.
func encode(args []Bin) []byte {
	var b []byte
	b = append(b, '*')
	b = strconv.AppendInt(b, int64(len(args)), 10)
	b = append(b, '\r', '\n')
	for _, a := range args {
		b = append(b, '$')
		b = strconv.AppendInt(b, int64(len(a)), 10)
		b = append(b, '\r', '\n')
		b = append(b, a...)
		b = append(b, '\r', '\n')
	}
	return b
}
