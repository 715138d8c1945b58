// Package s3x is an S3 double that is safe for concurrent use and lists in pages.
package s3x

import (
	"bytes"
	"context"
	"io"
	"maps"
	"slices"
	"strings"
	"sync"

	awss3 "github.com/aws/aws-sdk-go-v2/service/s3"
	"github.com/aws/aws-sdk-go-v2/service/s3/types"
	"reduction.dev/reduction/storage/objstore"
)

// New makes an empty object store with pages of the given size; list is called for each.
func New(page int, list func()) *Bucket {
	return &Bucket{data: map[string][]byte{}, page: page, list: list}
}

// Put stores an object, the key includes the bucket.
func (b *Bucket) Put(key string, d []byte) {
	b.mu.Lock()
	defer b.mu.Unlock()
	b.data[key] = d
}

// All is a snapshot of the objects, keys include the bucket.
func (b *Bucket) All() map[string][]byte {
	b.mu.Lock()
	defer b.mu.Unlock()
	return maps.Clone(b.data)
}

// Has tells whether there is an object; the key includes the bucket.
func (b *Bucket) Has(key string) bool {
	b.mu.Lock()
	defer b.mu.Unlock()
	_, ok := b.data[key]
	return ok
}

// Drop removes the objects that the predicate selects.
func (b *Bucket) Drop(f func(key string) bool) {
	b.mu.Lock()
	defer b.mu.Unlock()
	maps.DeleteFunc(b.data, func(k string, _ []byte) bool { return f(k) })
}

// Bucket is an object store which lists in pages and is safe for concurrent use.
type Bucket struct {
	mu   sync.Mutex
	data map[string][]byte
	page int
	list func()

	refuse map[string]error
}

// Refuse has every attempt to put the object fail with an error, if there is one.
func (b *Bucket) Refuse(key string, err error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	if b.refuse == nil {
		b.refuse = map[string]error{}
	}
	b.refuse[key] = err
}

func (b *Bucket) CopyObject(ctx context.Context, in *awss3.CopyObjectInput, _ ...func(*awss3.Options)) (*awss3.CopyObjectOutput, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	d, ok := b.data[*in.CopySource]
	if !ok {
		return nil, &types.NoSuchKey{}
	}
	b.data[*in.Bucket+"/"+*in.Key] = d
	return &awss3.CopyObjectOutput{}, nil
}

func (b *Bucket) GetObject(ctx context.Context, in *awss3.GetObjectInput, _ ...func(*awss3.Options)) (*awss3.GetObjectOutput, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	d, ok := b.data[*in.Bucket+"/"+*in.Key]
	if !ok {
		return nil, &types.NoSuchKey{}
	}
	return &awss3.GetObjectOutput{Body: io.NopCloser(bytes.NewReader(d))}, nil
}

func (b *Bucket) HeadObject(ctx context.Context, in *awss3.HeadObjectInput, _ ...func(*awss3.Options)) (*awss3.HeadObjectOutput, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	if _, ok := b.data[*in.Bucket+"/"+*in.Key]; !ok {
		return nil, &types.NoSuchKey{}
	}
	return &awss3.HeadObjectOutput{}, nil
}

func (b *Bucket) ListObjectsV2(ctx context.Context, in *awss3.ListObjectsV2Input, _ ...func(*awss3.Options)) (*awss3.ListObjectsV2Output, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	var ks []string
	for k := range b.data {
		if k, ok := strings.CutPrefix(k, *in.Bucket+"/"); ok && (in.Prefix == nil || strings.HasPrefix(k, *in.Prefix)) {
			ks = append(ks, k)
		}
	}
	slices.Sort(ks)
	after := ""
	if in.StartAfter != nil {
		after = *in.StartAfter
	}
	if in.ContinuationToken != nil {
		after = strings.TrimPrefix(*in.ContinuationToken, "after ")
	}
	out := &awss3.ListObjectsV2Output{}
	more := false
	for _, k := range ks {
		if after != "" && k <= after {
			continue
		}
		if len(out.Contents) == b.page {
			t := "after " + *out.Contents[b.page-1].Key
			out.NextContinuationToken = &t
			more = true
			break
		}
		out.Contents = append(out.Contents, types.Object{Key: &k})
	}
	out.IsTruncated = &more
	if b.list != nil {
		b.list()
	}
	return out, nil
}

func (b *Bucket) PutObject(ctx context.Context, in *awss3.PutObjectInput, _ ...func(*awss3.Options)) (*awss3.PutObjectOutput, error) {
	d, err := io.ReadAll(in.Body)
	if err != nil {
		return nil, err
	}
	b.mu.Lock()
	defer b.mu.Unlock()
	if err := b.refuse[*in.Bucket+"/"+*in.Key]; err != nil {
		return nil, err
	}
	b.data[*in.Bucket+"/"+*in.Key] = d
	return &awss3.PutObjectOutput{}, nil
}

func (b *Bucket) DeleteObject(ctx context.Context, in *awss3.DeleteObjectInput, _ ...func(*awss3.Options)) (*awss3.DeleteObjectOutput, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	delete(b.data, *in.Bucket+"/"+*in.Key)
	return &awss3.DeleteObjectOutput{}, nil
}

var _ objstore.S3Service = (*Bucket)(nil)
