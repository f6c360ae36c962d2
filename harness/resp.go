package main

import (
	"bufio"
	"errors"
	"fmt"
	"io"
	"strconv"
	"strings"
)

// Reply is one decoded RESP value. The decoder is strict and independent of
// the code under test.
type Reply struct {
	Kind byte // '+', '-', ':', '$', '*'
	Str  string
	Int  int64
	Null bool
	Arr  []Reply
}

type protoErr struct{ msg string }

func (e *protoErr) Error() string { return "malformed reply: " + e.msg }

func isProtoErr(err error) bool {
	var p *protoErr
	return errors.As(err, &p)
}

func readLineStrict(r *bufio.Reader) (string, error) {
	s, err := r.ReadString('\n')
	if err != nil {
		if err == io.EOF && s != "" {
			return "", io.ErrUnexpectedEOF
		}
		return "", err
	}
	if len(s) < 2 || s[len(s)-2] != '\r' {
		return "", &protoErr{fmt.Sprintf("line not ended by CRLF: %q", clip(s, 120))}
	}
	s = s[:len(s)-2]
	if strings.IndexByte(s, '\r') >= 0 {
		return "", &protoErr{fmt.Sprintf("CR inside a line: %q", clip(s, 120))}
	}
	return s, nil
}

func parseCanonInt(s string) (int64, bool) {
	n, err := strconv.ParseInt(s, 10, 64)
	if err != nil || strconv.FormatInt(n, 10) != s {
		return 0, false
	}
	return n, true
}

func ReadReply(r *bufio.Reader) (Reply, error) {
	line, err := readLineStrict(r)
	if err != nil {
		return Reply{}, err
	}
	if line == "" {
		return Reply{}, &protoErr{"empty line where a reply should start"}
	}
	kind, body := line[0], line[1:]
	switch kind {
	case '+', '-':
		return Reply{Kind: kind, Str: body}, nil
	case ':':
		n, ok := parseCanonInt(body)
		if !ok {
			return Reply{}, &protoErr{fmt.Sprintf("bad integer %q", clip(line, 60))}
		}
		return Reply{Kind: ':', Int: n}, nil
	case '$':
		n, ok := parseCanonInt(body)
		if !ok || n < -1 {
			return Reply{}, &protoErr{fmt.Sprintf("bad bulk length %q", clip(line, 60))}
		}
		if n == -1 {
			return Reply{Kind: '$', Null: true}, nil
		}
		buf := make([]byte, n+2)
		if _, err := io.ReadFull(r, buf); err != nil {
			return Reply{}, err
		}
		if buf[n] != '\r' || buf[n+1] != '\n' {
			return Reply{}, &protoErr{fmt.Sprintf("bulk of %d bytes not ended by CRLF", n)}
		}
		return Reply{Kind: '$', Str: string(buf[:n])}, nil
	case '*':
		n, ok := parseCanonInt(body)
		if !ok || n < -1 {
			return Reply{}, &protoErr{fmt.Sprintf("bad array length %q", clip(line, 60))}
		}
		if n == -1 {
			return Reply{Kind: '*', Null: true}, nil
		}
		rep := Reply{Kind: '*', Arr: make([]Reply, 0, min(n, 1<<16))}
		for i := int64(0); i < n; i++ {
			e, err := ReadReply(r)
			if err != nil {
				return Reply{}, err
			}
			rep.Arr = append(rep.Arr, e)
		}
		return rep, nil
	}
	return Reply{}, &protoErr{fmt.Sprintf("unknown reply type in %q", clip(line, 60))}
}

// nullArg stands for a null bulk among the arguments of a request.
const nullArg = "\x00null bulk\x00"

func AppendCmd(b []byte, args []string) []byte {
	b = append(b, '*')
	b = strconv.AppendInt(b, int64(len(args)), 10)
	b = append(b, "\r\n"...)
	for _, a := range args {
		if a == nullArg {
			b = append(b, "$-1\r\n"...)
			continue
		}
		b = append(b, '$')
		b = strconv.AppendInt(b, int64(len(a)), 10)
		b = append(b, "\r\n"...)
		b = append(b, a...)
		b = append(b, "\r\n"...)
	}
	return b
}

func (r Reply) String() string {
	switch r.Kind {
	case '+':
		return "+" + r.Str
	case '-':
		return "-" + clip(r.Str, 100)
	case ':':
		return ":" + strconv.FormatInt(r.Int, 10)
	case '$':
		if r.Null {
			return "(nil)"
		}
		return strconv.Quote(clip(r.Str, 80))
	case '*':
		if r.Null {
			return "(nil array)"
		}
		var sb strings.Builder
		sb.WriteByte('[')
		for i, e := range r.Arr {
			if i > 0 {
				sb.WriteByte(' ')
			}
			if i == 24 {
				fmt.Fprintf(&sb, "... %d in all", len(r.Arr))
				break
			}
			sb.WriteString(e.String())
		}
		sb.WriteByte(']')
		return sb.String()
	}
	return "?"
}

func clip(s string, n int) string {
	if len(s) <= n {
		return s
	}
	return s[:n] + fmt.Sprintf("...(%d bytes)", len(s))
}

func showCmd(a []string) string {
	var sb strings.Builder
	for i, x := range a {
		if i > 0 {
			sb.WriteByte(' ')
		}
		if i == 40 {
			fmt.Fprintf(&sb, "... (%d args)", len(a))
			break
		}
		plain := x != ""
		for j := 0; j < len(x) && plain; j++ {
			if x[j] <= ' ' || x[j] >= 127 || x[j] == '"' {
				plain = false
			}
		}
		if plain && len(x) <= 60 {
			sb.WriteString(x)
		} else {
			sb.WriteString(strconv.Quote(clip(x, 60)))
		}
	}
	return sb.String()
}
