package mls

import "golang.org/x/crypto/cryptobyte"

type vfCodec interface {
	marshal(*cryptobyte.Builder)
	unmarshal(*cryptobyte.String) error
}

// vfRoundTrip decodes raw into a, encodes it and decodes that into b.
func vfRoundTrip(raw []byte, a, b vfCodec) {
	in := append([]byte(nil), raw...)
	err := unmarshal(in, a)
	vfAssert(err == nil, "well-formed message decodes")
	// the decoded value must not depend on the input buffer
	for i := range in {
		in[i] = ^in[i]
	}
	out, err := marshal(a)
	vfAssert(err == nil, "decoded message encodes")
	vfAssert(vfEqual(out, raw), "encoding reproduces the message")
	out2, err := marshal(a)
	vfAssert(err == nil && vfEqual(out2, raw), "encoding twice gives the same bytes")
	err = unmarshal(out, b)
	vfAssert(err == nil, "encoded message decodes")
	vfAssert(vfEqual(vfDump(a), vfDump(b)), "decoded value equals the encoded one")
	vfReach("end")
}

// vfRoundTripFrom encodes the value a and decodes it into b.
func vfRoundTripFrom(a, b vfCodec) {
	before := vfDump(a)
	raw, err := marshal(a)
	vfAssert(err == nil, "value encodes")
	vfAssert(vfEqual(vfDump(a), before), "encoding does not change the value")
	err = unmarshal(raw, b)
	vfAssert(err == nil, "encoded value decodes")
	vfAssert(vfEqual(vfDump(b), before), "decoded value equals the encoded one")
	vfReach("end")
}

func vfC03Budget() int { return vfBound("deviations from the default shape", 2, 3) }

func vfC03Message(wf, ct, prop int) {
	w := vfWire(vfC03Budget(), false)
	w.message(wf, ct, prop)
	var a, b mlsMessage
	vfRoundTrip(w.b, &a, &b)
}

func vfH_C03_publicApplication()  { vfC03Message(1, 1, 3) }
func vfH_C03_publicAdd()          { vfC03Message(1, 2, 1) }
func vfH_C03_publicUpdate()       { vfC03Message(1, 2, 2) }
func vfH_C03_publicRemove()       { vfC03Message(1, 2, 3) }
func vfH_C03_publicPSK()          { vfC03Message(1, 2, 4) }
func vfH_C03_publicReInit()       { vfC03Message(1, 2, 5) }
func vfH_C03_publicExternalInit() { vfC03Message(1, 2, 6) }
func vfH_C03_publicExtensions()   { vfC03Message(1, 2, 7) }
func vfH_C03_publicCommit()       { vfC03Message(1, 3, 3) }
func vfH_C03_privateMessage()     { vfC03Message(2, 0, 0) }
func vfH_C03_welcomeMessage()     { vfC03Message(3, 0, 0) }
func vfH_C03_groupInfoMessage()   { vfC03Message(4, 0, 0) }
func vfH_C03_keyPackageMessage()  { vfC03Message(5, 0, 0) }

func vfH_C03_ratchetTree() {
	w := vfWire(vfC03Budget(), false)
	w.ratchetTree()
	var a, b ratchetTree
	vfRoundTrip(w.b, &a, &b)
}

func vfH_C03_groupSecrets() {
	w := vfWire(vfC03Budget(), false)
	w.groupSecrets()
	var a, b groupSecrets
	vfRoundTrip(w.b, &a, &b)
}

func vfH_C03_commit() {
	w := vfWire(vfC03Budget(), false)
	w.commit()
	var a, b commit
	vfRoundTrip(w.b, &a, &b)
}

func vfH_C03_authenticatedContent() {
	w := vfWire(vfC03Budget(), false)
	w.b = append(w.b, 0)
	w.enum("wire format", 1, 5, 1)
	_, ct := w.framedContent(2, 3)
	w.authData(ct)
	var a, b authenticatedContent
	vfRoundTrip(w.b, &a, &b)
}

func vfH_C03_updatePath() {
	w := vfWire(vfC03Budget(), false)
	w.updatePath()
	var a, b updatePath
	vfRoundTrip(w.b, &a, &b)
}

func vfH_C03_senderData() {
	w := vfWire(vfC03Budget(), false)
	w.num("sender data", 12)
	var a, b senderData
	vfRoundTrip(w.b, &a, &b)
}

func vfH_C03_groupContext() {
	w := vfWire(vfC03Budget(), false)
	w.groupContext()
	var a, b groupContext
	vfRoundTrip(w.b, &a, &b)
}

// big writes a byte string of n bytes with few symbolic ones.
func (w *vfW) big(n int) {
	w.varint(n)
	b := make([]byte, n)
	b[0], b[n/2], b[n-1] = vfU8("first"), vfU8("middle"), vfU8("last")
	w.b = append(w.b, b...)
}

func vfH_C03_large() {
	n := []int{255, 256, 16380, 16383, 16384, 65536}[vfChoice("size", 6)]
	w := vfWire(0, false)
	w.version()
	switch vfChoice("message", 3) {
	case 0:
		w.b = append(w.b, 0, 2)
		w.opaque("group id", 4)
		w.num("epoch", 8)
		w.enum("content type", 1, 3, 1)
		w.opaque("authenticated data", 1)
		w.opaque("sender data", 1)
		w.big(n)
	case 1:
		w.b = append(w.b, 0, 3)
		w.num("cipher suite", 2)
		c := w.sub()
		c.opaque("new member", 1)
		c.opaque("kem output", 1)
		c.big(n)
		w.varint(len(c.b))
		w.b = append(w.b, c.b...)
		w.opaque("encrypted group info", 1)
	case 2:
		w.b = append(w.b, 0, 4)
		w.groupContext()
		c := w.sub()
		c.num("extension type", 2)
		c.big(n)
		w.varint(len(c.b))
		w.b = append(w.b, c.b...)
		w.opaque("confirmation tag", 1)
		w.num("signer", 4)
		w.opaque("signature", 1)
	}
	var a, b mlsMessage
	vfRoundTrip(w.b, &a, &b)
}

// The exported encoders and decoders.
func vfH_C03_exportedKeyPackage() {
	w := vfWire(vfC03Budget(), false)
	w.message(5, 0, 0)
	kp, err := UnmarshalKeyPackage(w.b)
	vfAssert(err == nil && kp != nil, "key package decodes")
	raw := kp.Bytes()
	vfAssert(vfEqual(raw, w.b), "Bytes reproduces the key package")
	kp2, err := UnmarshalKeyPackage(raw)
	vfAssert(err == nil, "Bytes decodes")
	vfAssert(vfEqual(vfDump(kp), vfDump(kp2)), "same key package")
	vfReach("end")
}

func vfH_C03_exportedWelcome() {
	w := vfWire(vfC03Budget(), false)
	w.message(3, 0, 0)
	wel, err := UnmarshalWelcome(w.b)
	vfAssert(err == nil && wel != nil, "welcome decodes")
	raw := wel.Bytes()
	vfAssert(vfEqual(raw, w.b), "Bytes reproduces the welcome")
	wel2, err := UnmarshalWelcome(raw)
	vfAssert(err == nil, "Bytes decodes")
	vfAssert(vfEqual(vfDump(wel), vfDump(wel2)), "same welcome")
	vfReach("end")
}

// Values built field by field.

func (w *vfW) blob(name string) []byte {
	n := w.pick(name+".len", 1, 0, 2, 64)
	return vfBytes(name, n)
}

func (w *vfW) exts() []extension {
	n := w.pick("extensions.len", 1, 0, 2)
	var l []extension
	for i := 0; i < n; i++ {
		l = append(l, extension{extensionType: extensionType(vfU16("ext")), extensionData: w.blob("ext data")})
	}
	return l
}

func (w *vfW) cred() Credential {
	if w.pick("credential", 1, 2) == 1 {
		return *NewBasicCredential(w.blob("identity"))
	}
	c := Credential{credentialType: credentialTypeX509}
	n := w.pick("certs.len", 1, 0, 2)
	for i := 0; i < n; i++ {
		c.certificates = append(c.certificates, w.blob("cert"))
	}
	return c
}

func (w *vfW) leaf(source leafNodeSource) leafNode {
	l := leafNode{
		encryptionKey: w.blob("enc key"),
		signatureKey:  w.blob("sig key"),
		credential:    w.cred(),
		capabilities: capabilities{
			versions:     []protocolVersion{protocolVersion(vfU16("version"))},
			cipherSuites: []CipherSuite{CipherSuite(vfU16("suite")), CipherSuite(vfU16("suite"))},
			extensions:   []extensionType{extensionType(vfU16("ext"))},
			proposals:    []proposalType{proposalType(vfU16("proposal"))},
			credentials:  []credentialType{credentialType(vfU16("credential"))},
		},
		leafNodeSource: source,
		extensions:     w.exts(),
		signature:      w.blob("signature"),
	}
	switch source {
	case leafNodeSourceKeyPackage:
		l.lifetime = &lifetime{notBefore: vfU64("not before"), notAfter: vfU64("not after")}
	case leafNodeSourceCommit:
		l.parentHash = w.blob("parent hash")
	}
	return l
}

func (w *vfW) kp() KeyPackage {
	return KeyPackage{
		version:     protocolVersionMLS10,
		cipherSuite: CipherSuite(vfU16("suite")),
		initKey:     w.blob("init key"),
		leafNode:    w.leaf(leafNodeSourceKeyPackage),
		extensions:  w.exts(),
		signature:   w.blob("signature"),
	}
}

func vfH_C03_fieldsLeaf() {
	w := vfWire(vfC03Budget(), false)
	v := w.leaf(leafNodeSource(1 + vfChoice("source", 3)))
	var d leafNode
	vfRoundTripFrom(&v, &d)
}

func vfH_C03_fieldsKeyPackage() {
	w := vfWire(vfC03Budget(), false)
	v := w.kp()
	var d KeyPackage
	vfRoundTripFrom(&v, &d)
	kp, err := UnmarshalKeyPackage(v.Bytes())
	vfAssert(err == nil && vfEqual(vfDump(kp), vfDump(&v)), "exported encoder and decoder agree")
}

func (w *vfW) psk() preSharedKeyID {
	if w.pick("psk type", 1, 2) == 1 {
		return preSharedKeyID{pskType: pskTypeExternal, pskID: w.blob("id"), pskNonce: w.blob("nonce")}
	}
	return preSharedKeyID{
		pskType:    pskTypeResumption,
		usage:      resumptionPSKUsage(w.pick("usage", 1, 2, 3)),
		pskGroupID: w.blob("psk group"),
		pskEpoch:   vfU64("psk epoch"),
		pskNonce:   w.blob("nonce"),
	}
}

func (w *vfW) prop(def int) *proposal {
	switch p := def; p {
	case 1:
		return &proposal{proposalType: proposalTypeAdd, add: &add{keyPackage: w.kp()}}
	case 2:
		return &proposal{proposalType: proposalTypeUpdate, update: &update{leafNode: w.leaf(leafNodeSourceUpdate)}}
	case 3:
		return &proposal{proposalType: proposalTypeRemove, remove: &remove{removed: leafIndex(vfU32("removed"))}}
	case 4:
		return &proposal{proposalType: proposalTypePSK, preSharedKey: &preSharedKey{psk: w.psk()}}
	case 5:
		return &proposal{proposalType: proposalTypeReinit, reInit: &reInit{
			groupID: w.blob("group"), version: protocolVersion(vfU16("version")),
			cipherSuite: CipherSuite(vfU16("suite")), extensions: w.exts(),
		}}
	case 6:
		return &proposal{proposalType: proposalTypeExternalInit, externalInit: &externalInit{kemOutput: w.blob("kem")}}
	}
	return &proposal{proposalType: proposalTypeGroupContextExtensions, groupContextExtensions: &groupContextExtensions{extensions: w.exts()}}
}

func vfH_C03_fieldsProposal() {
	w := vfWire(vfC03Budget(), false)
	v := w.prop(1 + vfChoice("proposal type", 7))
	var d proposal
	vfRoundTripFrom(v, &d)
}

func (w *vfW) path() *updatePath {
	p := &updatePath{leafNode: w.leaf(leafNodeSourceCommit)}
	n := w.pick("nodes.len", 2, 0, 1)
	for i := 0; i < n; i++ {
		nd := updatePathNode{encryptionKey: w.blob("key")}
		m := w.pick("secrets.len", 1, 0, 2)
		for j := 0; j < m; j++ {
			nd.encryptedPathSecret = append(nd.encryptedPathSecret, hpkeCiphertext{kemOutput: w.blob("kem"), ciphertext: w.blob("ct")})
		}
		p.nodes = append(p.nodes, nd)
	}
	return p
}

func (w *vfW) com() *commit {
	c := &commit{}
	n := w.pick("proposals.len", 2, 0, 1, 3)
	for i := 0; i < n; i++ {
		if i%2 == 0 {
			c.proposals = append(c.proposals, proposalOrRef{typ: proposalOrRefTypeProposal, proposal: w.prop(w.pick("prop", 3, 1, 2, 4, 5, 6, 7))})
		} else {
			c.proposals = append(c.proposals, proposalOrRef{typ: proposalOrRefTypeReference, reference: w.blob("ref")})
		}
	}
	if w.pick("path", 1, 0) == 1 {
		c.path = w.path()
	}
	return c
}

func vfH_C03_fieldsCommit() {
	w := vfWire(vfC03Budget(), false)
	v := w.com()
	var d commit
	vfRoundTripFrom(v, &d)
}

func (w *vfW) fc(ct contentType) framedContent {
	c := framedContent{
		groupID:           w.blob("group"),
		epoch:             vfU64("epoch"),
		authenticatedData: w.blob("aad"),
		contentType:       ct,
	}
	switch s := senderType(w.pick("sender", 1, 2, 3, 4)); s {
	case senderTypeMember:
		c.sender = sender{senderType: s, leafIndex: leafIndex(vfU32("leaf"))}
	case senderTypeExternal:
		c.sender = sender{senderType: s, senderIndex: vfU32("index")}
	default:
		c.sender = sender{senderType: s}
	}
	switch ct {
	case contentTypeApplication:
		c.applicationData = w.blob("data")
	case contentTypeProposal:
		c.proposal = w.prop(w.pick("prop", 3, 1, 2, 4, 5, 6, 7))
	case contentTypeCommit:
		c.commit = w.com()
	}
	return c
}

func vfH_C03_fieldsPublicMessage() {
	w := vfWire(vfC03Budget(), false)
	v := publicMessage{content: w.fc(contentType(1 + vfChoice("content", 3)))}
	v.auth.signature = w.blob("signature")
	if v.content.contentType == contentTypeCommit {
		v.auth.confirmationTag = w.blob("tag")
	}
	if v.content.sender.senderType == senderTypeMember {
		v.membershipTag = w.blob("membership")
	}
	m := mlsMessage{version: protocolVersionMLS10, wireFormat: wireFormatMLSPublicMessage, publicMessage: &v}
	var d mlsMessage
	vfRoundTripFrom(&m, &d)
}

func vfH_C03_fieldsPrivateMessage() {
	w := vfWire(vfC03Budget(), false)
	v := privateMessage{
		groupID: w.blob("group"), epoch: vfU64("epoch"), contentType: contentType(w.pick("ct", 1, 2, 3)),
		authenticatedData: w.blob("aad"), encryptedSenderData: w.blob("sd"), ciphertext: w.blob("ct"),
	}
	m := mlsMessage{version: protocolVersionMLS10, wireFormat: wireFormatMLSPrivateMessage, privateMessage: &v}
	var d mlsMessage
	vfRoundTripFrom(&m, &d)
}

func vfH_C03_fieldsPrivateContent() {
	w := vfWire(vfC03Budget(), false)
	ct := contentType(1 + vfChoice("content", 3))
	var v privateMessageContent
	switch ct {
	case contentTypeApplication:
		v.applicationData = w.blob("data")
	case contentTypeProposal:
		v.proposal = w.prop(w.pick("prop", 3, 1, 2, 4, 5, 6, 7))
	case contentTypeCommit:
		v.commit = w.com()
		v.auth.confirmationTag = w.blob("tag")
	}
	v.auth.signature = w.blob("signature")
	var b cryptobyte.Builder
	v.marshal(&b, ct)
	raw, err := b.Bytes()
	vfAssert(err == nil, "private content encodes")
	s := cryptobyte.String(raw)
	var d privateMessageContent
	vfAssert(d.unmarshal(&s, ct) == nil && len(s) == 0, "private content decodes")
	vfAssert(vfEqual(vfDump(&v), vfDump(&d)), "same private content")
	vfReach("end")
}

func vfH_C03_fieldsGroupInfo() {
	w := vfWire(vfC03Budget(), false)
	v := groupInfo{
		groupContext: groupContext{
			version: protocolVersionMLS10, cipherSuite: CipherSuite(vfU16("suite")), groupID: w.blob("group"),
			epoch: vfU64("epoch"), treeHash: w.blob("tree hash"), confirmedTranscriptHash: w.blob("transcript"),
			extensions: w.exts(),
		},
		extensions:      w.exts(),
		confirmationTag: w.blob("tag"),
		signer:          leafIndex(vfU32("signer")),
		signature:       w.blob("signature"),
	}
	m := mlsMessage{version: protocolVersionMLS10, wireFormat: wireFormatMLSGroupInfo, groupInfo: &v}
	var d mlsMessage
	vfRoundTripFrom(&m, &d)
}

func vfH_C03_fieldsGroupSecrets() {
	w := vfWire(vfC03Budget(), false)
	v := groupSecrets{joinerSecret: w.blob("joiner")}
	switch w.pick("path secret", 0, 1, 2) {
	case 1:
		v.pathSecret = []byte{}
	case 2:
		v.pathSecret = w.blob("path secret")
	}
	n := w.pick("psks.len", 1, 0, 2)
	for i := 0; i < n; i++ {
		v.psks = append(v.psks, w.psk())
	}
	var d groupSecrets
	vfRoundTripFrom(&v, &d)
	vfAssert((v.pathSecret == nil) == (d.pathSecret == nil), "an absent path secret differs from an empty one")
}

func vfH_C03_fieldsWelcome() {
	w := vfWire(vfC03Budget(), false)
	v := Welcome{cipherSuite: CipherSuite(vfU16("suite")), encryptedGroupInfo: w.blob("info")}
	n := w.pick("secrets.len", 1, 0, 2)
	for i := 0; i < n; i++ {
		v.secrets = append(v.secrets, encryptedGroupSecrets{
			newMember:             w.blob("ref"),
			encryptedGroupSecrets: hpkeCiphertext{kemOutput: w.blob("kem"), ciphertext: w.blob("ct")},
		})
	}
	m := mlsMessage{version: protocolVersionMLS10, wireFormat: wireFormatMLSWelcome, welcome: &v}
	var d mlsMessage
	vfRoundTripFrom(&m, &d)
	refs := d.welcome.NewMembers()
	vfAssert(len(refs) == n, "number of new members")
	for i, ref := range refs {
		vfAssert(vfEqual(ref, v.secrets[i].newMember), "new member reference")
	}
}

func vfH_C03_fieldsSenderData() {
	v := senderData{leafIndex: leafIndex(vfU32("leaf")), generation: vfU32("generation")}
	copy(v.reuseGuard[:], vfBytes("guard", 4))
	var d senderData
	vfRoundTripFrom(&v, &d)
}

func vfH_C03_fieldsTree() {
	w := vfWire(vfC03Budget(), false)
	n := []int{1, 3, 7}[vfChoice("size", 3)]
	v := make(ratchetTree, n)
	last := -1
	for i := range v {
		def := 0
		if i == n/2+1 || i == 0 || i == 1 {
			def = 1
		}
		if n == 1 {
			def = 1
		}
		if w.pick("node", def, 1-def) == 0 {
			continue
		}
		last = i
		if i%2 == 0 {
			l := w.leaf(leafNodeSourceCommit)
			v[i] = &node{nodeType: nodeTypeLeaf, leafNode: &l}
		} else {
			p := &parentNode{encryptionKey: w.blob("key"), parentHash: w.blob("hash")}
			m := w.pick("unmerged.len", 1, 0, 2)
			for j := 0; j < m; j++ {
				p.unmergedLeaves = append(p.unmergedLeaves, leafIndex(vfU32("leaf")))
			}
			v[i] = &node{nodeType: nodeTypeParent, parentNode: p}
		}
	}
	// A tree is as small as its members allow
	vfAssume(last >= 0 && (n == 1 || last > n/2))
	var d ratchetTree
	vfRoundTripFrom(&v, &d)
}
