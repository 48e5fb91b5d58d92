//go:build !(amd64 && gc && !purego && !noasm)

package verifkern
