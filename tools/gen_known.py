"""Writes KNOWN_FINDINGS.txt (run by hand only; no check writes it)."""
FIXED = [
 ("C03","33f07bc","AES-192 keys were derived with 32 instead of 24 bytes"),
 ("C05","1380bb0","after the last valid AES counter FFFF0000 the invalid FFFF0001 was issued instead of an exhaustion error"),
 ("C12","b363dda","GenerateNextAesKsn and GenerateNextDesKsn overwrote the KSN of the caller"),
 ("C10","256144c","GenerateNextAesKsn, GenerateNextDesKsn and GetDesTcFromKsn panicked on short KSNs"),
 ("C04","256144c","GenerateNextDesKsn of a KSN outside 3..10 bytes repeated counters instead of failing"),
 ("C12","ce89207","AES key derivation appended working counters into the spare capacity of the caller's KSN"),
 ("C13","ce89207","concurrent AES derivations on one KSN slice raced on its spare capacity"),
 ("C10","4dd336e","AES operations panicked on short KSNs"),
 ("C11","4dd336e","AES operations accepted KSNs of a wrong length"),
 ("C09","0bd62eb","initial vectors that are absent, short or long failed, panicked or differed between encryption and decryption"),
 ("C11","67aae97","TDES operations used missing, short or long keys and KSNs as zero padded or truncated ones"),
 ("C08","7f887c4","VISA3 PIN blocks could not be decrypted"),
 ("C10","1b94bd7","decryption of a PIN block with an out-of-range length nibble panicked"),
 ("C19","b785dea","decrypt_pin and decrypt_data encrypted instead of decrypting"),
 ("C20","385f4e0","failed operations were answered with status 200 and an empty error object"),
 ("C20","00ce023","operations on unknown machines were not answered with 404"),
 ("C14","0717a59","concurrent next-KSN requests issued the same KSN several times"),
 ("C15","0717a59","machine descriptions with a KSN and a transaction key that do not match were visible"),
 ("C30","0717a59","machines handed out were the stored ones"),
 ("C15","4a190e3","a machine created with a preset current KSN got a transaction key of another KSN"),
 ("C11","90f2256","initial vectors and ciphertexts that are not hexadecimal were used as empty ones"),
 ("C22","e7c4175","the documented key types aes128, aes192 and aes256 were rejected by dukptcli"),
 ("C22","26565db","dukptcli could not generate an HMAC with the documented key types"),
 ("C11","12e99ba","the unified functions used TDES for every unknown algorithm"),
 ("C33","64a9359","the server crashed with a nil pointer when it could not listen on its admin address"),
 ("C20","b1329ee","operations on a machine that does not exist and whose name contains the words of an internal error were answered with 400 instead of 404"),
]
with open("/verif/KNOWN_FINDINGS.txt", "w") as f:
    f.write("# Genuine defects found. 'known:' entries are reported as KNOWN-FINDING by the check of the property,\n")
    f.write("# 'fixed:' entries were repaired in /repo and suppress nothing. No check writes this file.\n")
    for fmt in ["ISO-0","ISO-3","ANSI","ECI1","VISA1","VISA4"]:
        for n in (10, 11, 12):
            f.write("known: property=C08 sig=des-decrypt-pin:%s:len%d:error TDES decryption of an encrypted %s PIN block of a PIN with %d digits fails with an error instead of returning the PIN (the pin block dependency reads the length nibble as a decimal digit)\n" % (fmt, n, fmt, n))
    for p, c, w in FIXED:
        f.write("fixed: property=%s %s %s\n" % (p, c, w))
