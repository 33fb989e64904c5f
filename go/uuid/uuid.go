// Package uuid stands in for the module of that name.
package uuid

import (
	"crypto/rand"
	"fmt"
)

type UUID [16]byte

func New() (u UUID) {
	rand.Read(u[:])
	return
}

func NewString() string { return New().String() }

func (u UUID) String() string { return fmt.Sprintf("%x-%x-%x-%x-%x", u[:4], u[4:6], u[6:8], u[8:10], u[10:]) }
