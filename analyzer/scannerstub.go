package main

// scannerstub.go: declarations that stand for the absent module github.com/boynton/scanner, so that parser.go and
// unparser.go can be type-checked and analysed. NewScanner and Scan get their meaning from a transfer function
// (sadltext.go), which splits a symbolic source text into tokens.

import (
	"go/ast"
	"go/parser"
	"go/types"
)

const scannerPath = "github.com/boynton/scanner"

const scannerStub = `package scanner

import "io"

type TokenType int

const (
	UNDEFINED TokenType = iota
	EOF
	NEWLINE
	BLOCK_COMMENT
	LINE_COMMENT
	SYMBOL
	NUMBER
	STRING
	COLON
	SEMICOLON
	COMMA
	DOT
	AT
	HASH
	EQUALS
	DOLLAR
	QUOTE
	SLASH
	BACKSLASH
	STAR
	BANG
	QUESTION
	DASH
	PLUS
	PIPE
	AMPERSAND
	PERCENT
	TILDE
	BACKTICK
	CARET
	UNDERSCORE
	OPEN_BRACE
	CLOSE_BRACE
	OPEN_BRACKET
	CLOSE_BRACKET
	OPEN_PAREN
	CLOSE_PAREN
	OPEN_ANGLE
	CLOSE_ANGLE
)

const (
	RED    = "\033[0;31m"
	YELLOW = "\033[0;33m"
	BLACK  = "\033[0;0m"
)

func (t TokenType) String() string { return "token" }

type Token struct {
	Type  TokenType
	Text  string
	Line  int
	Start int
}

func (t Token) IsText() bool    { return t.Type == SYMBOL || t.Type == STRING }
func (t Token) IsNumeric() bool { return t.Type == NUMBER }
func (t Token) IsSymbol() bool  { return t.Type == SYMBOL }
func (t Token) String() string  { return t.Text }

type Scanner struct {
	Tokens []Token
	Next   int
}

func NewScanner(r io.Reader) *Scanner { return &Scanner{} }

func (s *Scanner) Scan() Token {
	if s.Next >= len(s.Tokens) {
		return Token{Type: EOF}
	}
	t := s.Tokens[s.Next]
	s.Next++
	return t
}

func FormattedAnnotation(filename, source, prefix, msg string, tok *Token, color string, contextSize int) string {
	return msg
}
`

func (p *Program) addScannerStub() error {
	f, err := parser.ParseFile(p.fset, "scanner.go", scannerStub, parser.SkipObjectResolution)
	if err != nil {
		return err
	}
	p.files[scannerPath] = []*ast.File{f}
	p.fileName[f] = "scanner.go"
	return nil
}

// parsed says whether parser.go and unparser.go are part of the analysed program.
func (p *Program) parsed() bool { return p.Func("", "ParseSadlString") != nil }

var _ types.Type
