// Package parser is an offline stand-in for vimagination.zapto.org/parser
// v1.0.0, written from the way limage uses that module (the module itself
// cannot be fetched here).
package parser

import (
	"errors"
	"io"
	"strings"
	"unicode/utf8"
)

// TokenType identifies a token. The negative types are reserved.
type TokenType int

// Reserved token types.
const (
	TokenDone TokenType = -1 - iota
	TokenError
)

// Errors.
var (
	ErrNoState      = errors.New("no state")
	ErrUnknownError = errors.New("unknown error")
)

// Token is a single lexed token.
type Token struct {
	Type TokenType
	Data string
}

// TokenFunc produces a token and the function that produces the next.
type TokenFunc func(*Tokeniser) (Token, TokenFunc)

// Tokeniser is a state machine over text.
type Tokeniser struct {
	data       string
	start, pos int
	width      int
	state      TokenFunc
	Err        error
}

// NewStringTokeniser tokenises a string.
func NewStringTokeniser(s string) Tokeniser { return Tokeniser{data: s} }

// NewByteTokeniser tokenises a byte slice.
func NewByteTokeniser(b []byte) Tokeniser { return Tokeniser{data: string(b)} }

// NewReaderTokeniser tokenises a reader.
func NewReaderTokeniser(r io.Reader) Tokeniser {
	b, err := io.ReadAll(r)

	return Tokeniser{data: string(b), Err: err}
}

func (t *Tokeniser) next() rune {
	if t.pos >= len(t.data) {
		t.width = 0

		return -1
	}

	r, w := utf8.DecodeRuneInString(t.data[t.pos:])
	t.width = w
	t.pos += w

	return r
}

func (t *Tokeniser) backup() { t.pos -= t.width; t.width = 0 }

// TokeniserState sets the next state.
func (t *Tokeniser) TokeniserState(tf TokenFunc) { t.state = tf }

// GetToken runs the state machine once.
func (t *Tokeniser) GetToken() (Token, error) {
	tk := t.get()
	if tk.Type == TokenError {
		return tk, t.Err
	}

	return tk, nil
}

func (t *Tokeniser) get() Token {
	if t.Err == io.EOF {
		return Token{Type: TokenDone}
	}

	if t.state == nil {
		t.Err = ErrNoState
		t.state = (*Tokeniser).Error
	}

	var tk Token

	tk, t.state = t.state(t)

	if tk.Type == TokenError && t.Err == io.EOF {
		t.Err = io.ErrUnexpectedEOF
	}

	return tk
}

// Accept accepts one of the given characters.
func (t *Tokeniser) Accept(chars string) bool {
	r := t.next()
	if r < 0 || !strings.ContainsRune(chars, r) {
		t.backup()

		return false
	}

	return true
}

// AcceptRun accepts a run of the given characters, returning the stopper.
func (t *Tokeniser) AcceptRun(chars string) rune {
	for {
		r := t.next()
		if r < 0 || !strings.ContainsRune(chars, r) {
			t.backup()

			return r
		}
	}
}

// Except accepts one character that is not in the given string.
func (t *Tokeniser) Except(chars string) bool {
	r := t.next()
	if r < 0 || strings.ContainsRune(chars, r) {
		t.backup()

		return false
	}

	return true
}

// ExceptRun accepts a run of characters not in the given string.
func (t *Tokeniser) ExceptRun(chars string) rune {
	for {
		r := t.next()
		if r < 0 || strings.ContainsRune(chars, r) {
			t.backup()

			return r
		}
	}
}

// Peek returns the next character, or -1 at the end.
func (t *Tokeniser) Peek() rune {
	r := t.next()
	t.backup()

	return r
}

// Get returns what was accepted since the last Get.
func (t *Tokeniser) Get() string {
	s := t.data[t.start:t.pos]
	t.start = t.pos

	return s
}

// Len returns the number of bytes accepted since the last Get.
func (t *Tokeniser) Len() int { return t.pos - t.start }

// Done ends tokenising.
func (t *Tokeniser) Done() (Token, TokenFunc) {
	t.Err = io.EOF

	return Token{Type: TokenDone}, (*Tokeniser).Done
}

// Error ends tokenising with an error.
func (t *Tokeniser) Error() (Token, TokenFunc) {
	if t.Err == nil {
		t.Err = ErrUnknownError
	}

	return Token{Type: TokenError, Data: t.Err.Error()}, (*Tokeniser).Error
}

// Parser collects tokens into phrases.
type Parser struct {
	Tokeniser
	tokens []Token
	peeked bool
}

// New creates a parser over a tokeniser.
func New(t Tokeniser) Parser { return Parser{Tokeniser: t} }

func (p *Parser) next() Token {
	if p.peeked {
		p.peeked = false

		return p.tokens[:len(p.tokens)+1][len(p.tokens)]
	}

	tk := p.Tokeniser.get()
	n := len(p.tokens)
	p.tokens = append(p.tokens, tk)
	p.tokens = p.tokens[:n]

	return tk
}

func (p *Parser) backup() { p.peeked = true }

// Peek returns the next token without consuming it.
func (p *Parser) Peek() Token {
	tk := p.next()
	p.backup()

	return tk
}

// Accept accepts a token of one of the given types.
func (p *Parser) Accept(types ...TokenType) bool {
	tk := p.next()

	for _, t := range types {
		if tk.Type == t {
			p.tokens = append(p.tokens, tk)

			return true
		}
	}

	p.backup()

	return false
}

// AcceptRun accepts tokens of the given types, returning the stopper's type.
func (p *Parser) AcceptRun(types ...TokenType) TokenType {
Loop:
	for {
		tk := p.next()

		for _, t := range types {
			if tk.Type == t {
				p.tokens = append(p.tokens, tk)

				continue Loop
			}
		}

		p.backup()

		return tk.Type
	}
}

// Get returns the accepted tokens.
func (p *Parser) Get() []Token {
	tokens := p.tokens

	if p.peeked {
		p.tokens = append(make([]Token, 0, 16), tokens[:len(tokens)+1][len(tokens)])[:0]
	} else {
		p.tokens = nil
	}

	return tokens
}

// Len returns the number of accepted tokens.
func (p *Parser) Len() int { return len(p.tokens) }
