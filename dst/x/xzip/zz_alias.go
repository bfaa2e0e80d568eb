// Code generated by genalias. DO NOT EDIT.

package xzip

import real "archive/zip"

type Compressor = real.Compressor
type Decompressor = real.Decompressor

const Deflate = real.Deflate

var ErrAlgorithm = real.ErrAlgorithm
var ErrChecksum = real.ErrChecksum
var ErrFormat = real.ErrFormat
var ErrInsecurePath = real.ErrInsecurePath

type File = real.File
type FileHeader = real.FileHeader

var FileInfoHeader = real.FileInfoHeader
var NewReader = real.NewReader
var NewWriter = real.NewWriter

type Reader = real.Reader

var RegisterCompressor = real.RegisterCompressor
var RegisterDecompressor = real.RegisterDecompressor

const Store = real.Store

type Writer = real.Writer
