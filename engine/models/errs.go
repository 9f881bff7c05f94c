package vmodels

import (
	"database/sql/driver"
	"errors"
	"io"

	berrors "github.com/johnnadratowski/golang-neo4j-bolt-driver/errors"
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/structures/messages"
)

// HErrors decides C27 for the errors package: any base error under any number of layers up to six.
func HErrors() {
	PanicProps("C27")
	BlockProps("C27")
	var base error
	text := ""
	switch Choose(6) {
	case 0:
		text = "b4se t3xt"
		base = errors.New(text)
	case 1:
		text = driver.ErrBadConn.Error()
		base = driver.ErrBadConn
	case 2:
		text = io.EOF.Error()
		base = io.EOF
	case 3:
		text = "c0de"
		base = messages.NewFailureMessage(map[string]interface{}{"code": "c0de"})
	case 4:
		text = "b4se 17 x"
		base = berrors.New("b4se %d %s", 17, "x")
	case 5:
		t := SymText("text")
		text = t
		base = berrors.New("%s", t)
	}
	err := base
	texts := []string{text}
	k := Choose(7)
	for i := 0; i < k; i++ {
		t := "l4yer" + digit(i%3) + digit(i/3)
		var e *berrors.Error
		switch Choose(2) {
		case 0:
			e = berrors.Wrap(err, t)
		case 1:
			t = t + " with 5"
			e = berrors.Wrap(err, "l4yer"+digit(i%3)+digit(i/3)+" %s %d", "with", 5)
		}
		texts = append(texts, t)
		Check("C27", sameErr(e.Inner(), err), "the error inside a wrapped error is the one that was wrapped")
		err = e
	}
	if e, ok := err.(*berrors.Error); ok {
		Check("C27", sameErr(e.InnerMost(), base), "the innermost error is the one that started it")
		msg := e.Error()
		for _, t := range texts {
			Check("C27", Contains(msg, t), "the texts of all layers are part of the message")
		}
		Covered("layers")
		Check("C27", sameErr(e.InnerMost(), base) && e.Error() == msg, "looking at an error does not change it")
	}
}

func sameErr(a, b error) bool {
	if _, ok := b.(messages.FailureMessage); ok {
		return Same(a, b)
	}
	return a == b
}
