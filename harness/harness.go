// Package harness holds the checks, one function per question.
package harness
