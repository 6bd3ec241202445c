//go:build verif_values

package pointserializer

import (
	"encoding/binary"
	"io"

	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/bandersnatchErrors"
	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/fieldElements"
)

// VerifValues is a serializer of the values below the point formats. There are one or two field elements and at most one bit.
type VerifValues struct {
	Name     string
	Elements int
	Bit      bool
	Length   func() int32
	Write    func(w io.Writer, a, b *fieldElements.FieldElement, bit bool) (int, bandersnatchErrors.SerializationError)
	Read     func(r io.Reader) (int, bandersnatchErrors.DeserializationError, [2]fieldElements.FieldElement, bool)
	Clone    func() VerifValues
	With     func(e binary.ByteOrder) VerifValues
	Set      func(name string, v any) VerifValues
	Get      func(name string) any
	Params   [2]func() []string // of the serializer and of a nil pointer to its type
	Has      [2]func(string) bool
}

type verifFE = fieldElements.FieldElement

func verifFeFe(s *valuesSerializerFeFe) VerifValues {
	return VerifValues{"two elements", 2, false, s.OutputLength,
		func(w io.Writer, a, b *verifFE, bit bool) (int, bandersnatchErrors.SerializationError) {
			return s.SerializeValues(w, a, b)
		},
		func(r io.Reader) (int, bandersnatchErrors.DeserializationError, [2]verifFE, bool) {
			n, err, a, b := s.DeserializeValues(r)
			return n, err, [2]verifFE{a, b}, false
		},
		func() VerifValues { return verifFeFe(s.Clone()) },
		func(e binary.ByteOrder) VerifValues { return verifFeFe(s.WithParameter("Endianness", e)) },
		func(name string, v any) VerifValues { return verifFeFe(s.WithParameter(name, v)) },
		s.GetParameter,
		[2]func() []string{s.RecognizedParameters, (*valuesSerializerFeFe)(nil).RecognizedParameters},
		[2]func(string) bool{s.HasParameter, (*valuesSerializerFeFe)(nil).HasParameter}}
}

func verifHeFe(s *valuesSerializerHeaderFeHeaderFe) VerifValues {
	return VerifValues{"two elements with headers", 2, false, s.OutputLength,
		func(w io.Writer, a, b *verifFE, bit bool) (int, bandersnatchErrors.SerializationError) {
			return s.SerializeValues(w, a, b)
		},
		func(r io.Reader) (int, bandersnatchErrors.DeserializationError, [2]verifFE, bool) {
			n, err, a, b := s.DeserializeValues(r)
			return n, err, [2]verifFE{a, b}, false
		},
		func() VerifValues { return verifHeFe(s.Clone()) },
		func(e binary.ByteOrder) VerifValues { return verifHeFe(s.WithParameter("Endianness", e)) },
		func(name string, v any) VerifValues { return verifHeFe(s.WithParameter(name, v)) },
		s.GetParameter,
		[2]func() []string{s.RecognizedParameters, (*valuesSerializerHeaderFeHeaderFe)(nil).RecognizedParameters},
		[2]func(string) bool{s.HasParameter, (*valuesSerializerHeaderFeHeaderFe)(nil).HasParameter}}
}

func verifFe(s *valuesSerializerFe) VerifValues {
	return VerifValues{"element", 1, false, s.OutputLength,
		func(w io.Writer, a, b *verifFE, bit bool) (int, bandersnatchErrors.SerializationError) {
			return s.SerializeValues(w, a)
		},
		func(r io.Reader) (int, bandersnatchErrors.DeserializationError, [2]verifFE, bool) {
			n, err, a := s.DeserializeValues(r)
			return n, err, [2]verifFE{a, a}, false
		},
		func() VerifValues { return verifFe(s.Clone()) },
		func(e binary.ByteOrder) VerifValues { return verifFe(s.WithParameter("Endianness", e)) },
		func(name string, v any) VerifValues { return verifFe(s.WithParameter(name, v)) },
		s.GetParameter,
		[2]func() []string{s.RecognizedParameters, (*valuesSerializerFe)(nil).RecognizedParameters},
		[2]func(string) bool{s.HasParameter, (*valuesSerializerFe)(nil).HasParameter}}
}

func verifH(s *valuesSerializerHeaderFe) VerifValues {
	return VerifValues{"element with header", 1, false, s.OutputLength,
		func(w io.Writer, a, b *verifFE, bit bool) (int, bandersnatchErrors.SerializationError) {
			return s.SerializeValues(w, a)
		},
		func(r io.Reader) (int, bandersnatchErrors.DeserializationError, [2]verifFE, bool) {
			n, err, a := s.DeserializeValues(r)
			return n, err, [2]verifFE{a, a}, false
		},
		func() VerifValues { return verifH(s.Clone()) },
		func(e binary.ByteOrder) VerifValues { return verifH(s.WithParameter("Endianness", e)) },
		func(name string, v any) VerifValues { return verifH(s.WithParameter(name, v)) },
		s.GetParameter,
		[2]func() []string{s.RecognizedParameters, (*valuesSerializerHeaderFe)(nil).RecognizedParameters},
		[2]func(string) bool{s.HasParameter, (*valuesSerializerHeaderFe)(nil).HasParameter}}
}

func verifFeBit(s *valuesSerializerFeCompressedBit) VerifValues {
	return VerifValues{"element and bit", 1, true, s.OutputLength,
		func(w io.Writer, a, b *verifFE, bit bool) (int, bandersnatchErrors.SerializationError) {
			return s.SerializeValues(w, a, bit)
		},
		func(r io.Reader) (int, bandersnatchErrors.DeserializationError, [2]verifFE, bool) {
			n, err, a, bit := s.DeserializeValues(r)
			return n, err, [2]verifFE{a, a}, bit
		},
		func() VerifValues { return verifFeBit(s.Clone()) },
		func(e binary.ByteOrder) VerifValues { return verifFeBit(s.WithParameter("Endianness", e)) },
		func(name string, v any) VerifValues { return verifFeBit(s.WithParameter(name, v)) },
		s.GetParameter,
		[2]func() []string{s.RecognizedParameters, (*valuesSerializerFeCompressedBit)(nil).RecognizedParameters},
		[2]func(string) bool{s.HasParameter, (*valuesSerializerFeCompressedBit)(nil).HasParameter}}
}

// VerifValuesSerializers makes one of each; they use the given byte order.
func VerifValuesSerializers(e FieldElementEndianness) []VerifValues {
	return []VerifValues{
		verifFeFe(&valuesSerializerFeFe{fieldElementEndianness: e}),
		verifHeFe(&valuesSerializerHeaderFeHeaderFe{fieldElementEndianness: e}),
		verifFe(&valuesSerializerFe{fieldElementEndianness: e}),
		verifH(&valuesSerializerHeaderFe{fieldElementEndianness: e}),
		verifFeBit(&valuesSerializerFeCompressedBit{fieldElementEndianness: e}),
	}
}
