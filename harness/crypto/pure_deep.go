package crypto

// oDerive uses names that are not exported; where they are gone, pure_flat.go takes its place.
func oDerive(a int) string {
	d, err := GenerateKeyDerivation(oPublic(a), oSecret(a+6))
	if err != nil {
		return err.Error()
	}
	b := oPublic(a + 7)
	p, err := d.derivePublicKey(uint64(a)*1000, &b)
	if err != nil {
		return err.Error()
	}
	u, err := d.underivePublicKey(uint64(a)*1000, p)
	return oTell(*p, *u, err, *d, b)
}
