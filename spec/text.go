package zzverifspec

import (
	"bufio"
	"fmt"
	"strings"

	"github.com/ulule/loukoum/v3/lexer"
	"github.com/ulule/loukoum/v3/parser"
	"github.com/ulule/loukoum/v3/stmt"
	"github.com/ulule/loukoum/v3/token"
	"github.com/ulule/loukoum/v3/types"
)

// C15: textual joins.

// tokens is the sequence of the tokens of a text.
func tokens(text string) []token.Token {
	lx := lexer.New(strings.NewReader(text))
	list := []token.Token{}
	for {
		t := lx.Next()
		if t.Type == token.EOF {
			return list
		}
		list = append(list, t)
	}
}

func Q_C15_tokens(text string) []token.Token {
	lx := lexer.New(strings.NewReader(text))
	it := lx.Iterator()
	list := []token.Token{}
	for it.HasNext() {
		list = append(list, it.Next())
	}
	return list
}
func S_C15_tokens(text string) []token.Token { return tokens(text) }

func Q_C15_is(text string, n int, t token.Type) bool {
	lx := lexer.New(strings.NewReader(text))
	it := lx.Iterator()
	for i := 0; i < n && it.HasNext(); i++ {
		it.Next()
	}
	return it.Is(t)
}
func S_C15_is(text string, n int, t token.Type) bool {
	list := tokens(text)
	if n <= 0 {
		n = 0
	}
	return n < len(list) && list[n].Type == t
}

func Q_C15_must(text string) stmt.Join { return parser.MustParseJoin(text) }
func S_C15_must(text string) stmt.Join {
	join, err := parser.ParseJoin(text)
	if err != nil {
		panic(fmt.Sprintf("loukoum: %s", err))
	}
	return join
}

func Q_C15sim_join(text string) (stmt.Join, bool) {
	join, err := parser.ParseJoin(text)
	if err != nil {
		return stmt.Join{}, false
	}
	return join, true
}

// One token at a time; phase is the state of the grammar.
func S_C15sim_join(text string) (stmt.Join, bool) {
	var join stmt.Join
	var condition stmt.Expression
	phase, word, operator := "open", "", types.LogicalOperator("")
	depth := 0
	bad := stmt.Join{}

	for _, t := range tokens(text) {
		switch phase {
		case "open":
			switch t.Type {
			case token.LParen:
				depth++
				phase = "group"
			case token.On:
				phase = "group"
			case token.Join, token.Inner, token.Left, token.Right:
				if join.Type != "" {
					return bad, false
				}
				switch t.Type {
				case token.Left:
					join.Type = types.LeftJoin
				case token.Right:
					join.Type = types.RightJoin
				default:
					join.Type = types.InnerJoin
				}
				if t.Type != token.Join {
					phase = "join"
				}
			case token.Literal:
				word = t.Value
				phase = "word"
			default:
				return bad, false
			}
		case "join":
			if t.Type != token.Join {
				return bad, false
			}
			phase = "open"
		case "word":
			switch t.Type {
			case token.On:
				join.Table = stmt.NewTable(word)
				word, phase = "", "group"
			case token.Equals:
				phase = "equals"
			default:
				return bad, false
			}
		case "group":
			switch t.Type {
			case token.LParen:
				depth++
			case token.Literal:
				word, phase = t.Value, "left"
			default:
				return bad, false
			}
		case "equals":
			if t.Type != token.Literal {
				return bad, false
			}
			clause := stmt.NewOnClause(stmt.NewColumn(word), stmt.NewColumn(t.Value))
			if condition == nil {
				condition = clause
			} else {
				condition = stmt.NewInfixExpression(condition, stmt.NewLogicalOperator(operator), clause)
			}
			word, operator, phase = "", "", "done"
		case "operand":
			if t.Type != token.Literal {
				return bad, false
			}
			word, phase = t.Value, "left"
		case "left":
			if t.Type != token.Equals {
				return bad, false
			}
			phase = "equals"
		case "done", "closed":
			switch {
			case t.Type == token.And && phase == "done":
				operator, phase = types.And, "operand"
			case t.Type == token.Or && phase == "done":
				operator, phase = types.Or, "operand"
			case t.Type == token.RParen && depth > 0:
				depth--
				phase = "closed"
			case t.Type == token.Semicolon:
				phase = "end"
			default:
				return bad, false
			}
		default:
			return bad, false
		}
	}

	if phase != "done" && phase != "closed" && phase != "end" || depth != 0 {
		return bad, false
	}
	if join.Type == "" {
		join.Type = types.InnerJoin
	}
	join.Condition = condition
	return join, true
}

// C16: the lexer.

// The first token of a text, and the lexer of what follows it.
func Q_C16sim_next(text string) (token.Token, lexer.Lexer) {
	lx := lexer.New(strings.NewReader(text))
	t := lx.Next()
	return t, lx
}

func S_C16sim_next(text string) (token.Token, lexer.Lexer) {
	in := bufio.NewReader(strings.NewReader(text))
	inWord, word := false, ""
	for {
		r, _, err := in.ReadRune()
		letter := err == nil && ('a' <= r && r <= 'z' || 'A' <= r && r <= 'Z' || '0' <= r && r <= '9' || r == '_' || r == '.')
		if inWord && !letter {
			if err == nil {
				in.UnreadRune()
			}
			return token.Token{Type: token.Lookup(word), Value: word}, lexer.New(in)
		}
		if err != nil {
			return token.Token{Type: token.EOF}, lexer.New(in)
		}
		switch {
		case letter:
			inWord = true
			word += string(r)
			continue
		case r == ' ' || r == '\t' || r == '\n' || r == '\r':
			continue
		}
		return token.Token{Type: symbol(r), Value: string(r)}, lexer.New(in)
	}
}

func symbol(r rune) token.Type {
	switch r {
	case '*':
		return "*"
	case '=':
		return "="
	case ';':
		return ";"
	case ',':
		return ","
	case ':':
		return ":"
	case '(':
		return "("
	case ')':
		return ")"
	}
	return token.Illegal
}

func Q_C16_lookup(word string) token.Type { return token.Lookup(word) }
func S_C16_lookup(word string) token.Type {
	switch strings.ToUpper(word) {
	case "SELECT":
		return token.Select
	case "UPDATE":
		return token.Update
	case "INSERT":
		return token.Insert
	case "DELETE":
		return token.Delete
	case "FROM":
		return token.From
	case "WHERE":
		return token.Where
	case "AND":
		return token.And
	case "OR":
		return token.Or
	case "LIMIT":
		return token.Limit
	case "OFFSET":
		return token.Offset
	case "SET":
		return token.Set
	case "AS":
		return token.As
	case "INNER":
		return token.Inner
	case "CROSS":
		return token.Cross
	case "LEFT":
		return token.Left
	case "RIGHT":
		return token.Right
	case "JOIN":
		return token.Join
	case "ON":
		return token.On
	case "GROUP":
		return token.Group
	case "BY":
		return token.By
	case "HAVING":
		return token.Having
	case "ORDER":
		return token.Order
	case "DISTINCT":
		return token.Distinct
	case "DISTINCT ON":
		return token.DistinctOn
	case "ONLY":
		return token.Only
	case "USING":
		return token.Using
	case "RETURNING":
		return token.Returning
	case "VALUES":
		return token.Values
	case "INTO":
		return token.Into
	case "CONFLICT":
		return token.Conflict
	case "DO":
		return token.Do
	case "NOTHING":
		return token.Nothing
	case "WITH":
		return token.With
	case "NOT":
		return token.Not
	case "EXISTS":
		return token.Exists
	case "COUNT":
		return token.Count
	case "MAX":
		return token.Max
	case "MIN":
		return token.Min
	case "SUM":
		return token.Sum
	}
	return token.Literal
}
