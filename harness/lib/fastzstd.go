package lib

import (
	"github.com/apache/arrow/go/v17/parquet/compress"
	"github.com/klauspost/compress/zstd"
)

// Arrow allocates a zstd encoder for every column chunk it writes, which is
// ten times the cost of everything else in a flush. The checks register a
// codec of the same format that keeps one encoder.
type fastZstd struct {
	compress.Codec
	e *zstd.Encoder
}

func (f fastZstd) Encode(dst, src []byte) []byte { return f.e.EncodeAll(src, dst[:0]) }
func (f fastZstd) EncodeLevel(dst, src []byte, _ int) []byte {
	return f.e.EncodeAll(src, dst[:0])
}

func FastParquet() {
	c, err := compress.GetCodec(compress.Codecs.Zstd)
	if err != nil {
		return
	}
	e, err := zstd.NewWriter(nil, zstd.WithZeroFrames(true), zstd.WithEncoderLevel(zstd.SpeedFastest), zstd.WithEncoderConcurrency(8))
	if err != nil {
		return
	}
	compress.RegisterCodec(compress.Codecs.Zstd, fastZstd{c, e})
}
