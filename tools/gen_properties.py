#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth for the wording is this file)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

PK,PB,MN,BT,UT,ST,WL="private_key.go","public_key.go","mnemonic.go","btc.go","util.go","struct.go","wordlists.go"

p("C01","Every private key handed out is well formed",
 "Every private key the library returns without an error (imported from hex or from WIF, generated, or obtained by adding or multiplying two keys) has a scalar between 1 and n-1, where n is the order of secp256k1, and a hex form of exactly 64 hex digits that denotes that same scalar.",
 ["inputs"],"for every input string, every pair of well-formed keys and every random draw",
 "The tests import 15 fixed keys and generate 20,000 random ones; scalars with leading zero digits, 0, n and above, and short hex strings are never tried, and a sum with a leading zero nibble appears once in 16 sums of which six are tested.",
 [PK,UT,ST],[("hex import","private_key.go PrivateFromHex"),("WIF import","private_key.go PrivateFromWIF"),("generation","private_key.go GeneratePrivateKey"),("sums and products","private_key.go AddPrivateKeys, MultiplyPrivateKeys")],
 ["Key and Hex of the returned PrivateKey"])
p("C02","WIF export is the standard Base58Check encoding",
 "The WIF text of every private key that the library makes from hex, by generation or by combining keys is the Base58 encoding of the network's one version byte, then the scalar as exactly 32 big-endian bytes, then the first four bytes of the double SHA-256 of those 33 bytes.",
 ["inputs"],"for every scalar in [1,n-1] and every network with a one-byte version",
 "The tests compare about 30 fixed WIF strings; none has a scalar with leading zero bytes, and the checksum is a function of all 2^256 scalars.",
 [PK],[("checksum and Base58 of the versioned key","private_key.go PrivateFromHex")],["WIF of the returned PrivateKey"])
p("C03","The WIF check accepts exactly the strings with a correct checksum",
 "The WIF checker answers true for a string exactly when the string is valid Base58, decodes to at least four bytes, and its last four bytes equal the first four bytes of the double SHA-256 of all the bytes before them; for every other string it answers false.",
 ["inputs"],"for every string, of any length and content",
 "55 fixed strings of 50 or 51 characters are tested; short strings, a checksum that agrees only in part and non-Base58 characters are not.",
 [PK],[("checksum comparison","private_key.go CheckWIF")],["result of CheckWIF"])
p("C04","WIF import returns the encoded key or an error",
 "Importing a WIF string for a network succeeds exactly when the string passes the WIF check, its version byte is that network's, and what lies between version byte and checksum is a 32-byte scalar in [1,n-1], optionally followed by the single byte 01 that marks a compressed key. On success the key's scalar is exactly that 32-byte value, its WIF is the given string and its network is the one asked for; otherwise an error and no key is returned.",
 ["inputs"],"for every string and every network with a one-byte version",
 "Only well-formed uncompressed WIF strings of the right network, and two truncated ones, are tested.",
 [PK],[("payload extraction","private_key.go PrivateFromWIF"),("checksum gate","private_key.go CheckWIF")],["result of PrivateFromWIF"])
p("C05","Hex import accepts exactly the 64-digit scalars in range",
 "Importing a private key from hex succeeds exactly when the text is 64 hexadecimal digits, in either case, that denote a value from 1 to n-1, and then the key's scalar is that value; every other text gives an error and no key.",
 ["inputs"],"for every string and every network",
 "The tests import 15 valid strings and reject two (63 and 65 digits); 0, n, signs, the empty string and short even-length strings are not tried.",
 [PK],[("parsing and rejection","private_key.go PrivateFromHex")],["result of PrivateFromHex"])
p("C06","Adding and multiplying private keys is arithmetic modulo n",
 "For two private keys with different scalars and the same network parameters, addition returns the key whose scalar is (a+b) mod n and multiplication the key whose scalar is (a*b) mod n. The operation fails, with an error and no key, exactly when the networks' parameters differ, the two scalars are equal, or the resulting scalar is 0.",
 ["inputs"],"for all pairs of well-formed keys, including the same key object passed twice",
 "Six sums and six products are compared; wrap-around at n, results with leading zero digits, and inverse pairs are not.",
 [PK,BT],[("modular addition","private_key.go AddPrivateKeys"),("modular multiplication","private_key.go MultiplyPrivateKeys")],["result of AddPrivateKeys and MultiplyPrivateKeys"])
p("C07","Keys never cross networks",
 "Every imported or generated key carries the network it was requested for, and every derived key (the public key of a private key, sums and products of keys) carries the network of its inputs. Combining two private or two public keys whose networks differ in any parameter always fails.",
 ["inputs","configurations"],"for all keys and for all pairs of networks, whether distinct objects or shared",
 "One main-net/test-net pair is tried for private keys and none for public keys; networks that differ in only one parameter are not.",
 [PK,PB,ST],[("network comparison","AddPrivateKeys, MultiplyPrivateKeys, AddPublicKeys"),("network propagation","all constructors")],["Network of every returned key; errors of the combining operations"])
p("C08","The public key of scalar k is the point k*G",
 "For every private key with scalar k in [1,n-1], deriving the public key succeeds and yields the coordinates of k times the secp256k1 generator; a scalar outside that range is reported as invalid and yields no key. The call never ends the process.",
 ["inputs"],"for every scalar, including 1, n-1 and values outside [1,n-1]",
 "12 scalars are tested; the extreme scalars 1 and n-1, where the point arithmetic meets the point at infinity, are not.",
 [PB,BT],[("scalar multiplication","public_key.go GetPublicKey")],["result of GetPublicKey"])
p("C09","Public keys serialise to the SEC1 hex forms",
 "The uncompressed form of a public key is the text 04 followed by X and Y, each as exactly 64 lower-case hex digits; the compressed form is 02 when Y is even and 03 when Y is odd, followed by X as exactly 64 hex digits.",
 ["inputs"],"for every point of the curve and both forms",
 "12 points are tested, two of them with a short X and none with a short Y of the interesting lengths.",
 [PB,UT],[("formatting and padding","public_key.go Format")],["result of Format"])
p("C10","Public key parsing accepts exactly valid SEC1 points",
 "Parsing a hex public key succeeds exactly when the text is 04 plus 128 hex digits giving coordinates below the field prime of a point on the curve, or 02 or 03 plus 64 hex digits giving an X below the field prime for which the curve has a point. The returned point has those coordinates and lies on the curve, with Y even for 02 and odd for 03; every other text gives an error and no key.",
 ["inputs"],"for every string of any length and content",
 "Only valid encodings are tested: no off-curve point, no short, over-long or non-hex string.",
 [PB],[("parsing and point recovery","public_key.go PublicFromHex")],["result of PublicFromHex"])
p("C11","Addresses are the standard P2PKH encoding",
 "The address of a public key is the Base58 encoding of the network's public-key-hash version byte, the RIPEMD-160 of the SHA-256 of the key's serialised bytes in the requested (compressed or uncompressed) form, and the first four bytes of the double SHA-256 of those 21 bytes; for a valid key no error is returned.",
 ["inputs"],"for every point, both forms and every network with a one-byte version",
 "24 addresses are compared, ignoring letter case, out of about 2^256 keys.",
 [PB],[("hashing and Base58Check","public_key.go Address"),("serialisation","public_key.go Format")],["result of Address"])
p("C12","Adding public keys is the curve's group law",
 "Adding two valid public keys with the same network parameters returns the sum of the two points on secp256k1, including the doubling of equal points; when the points are inverses of each other an error and no key is returned. The call never ends the process.",
 ["inputs"],"for all pairs of valid points, including equal and mutually inverse ones and the same key object passed twice",
 "10 sums of unrelated points are tested; doubling and inverse points are not.",
 [PB],[("point addition","public_key.go AddPublicKeys")],["result of AddPublicKeys"])
p("C13","Curve and network parameters are the published constants and stay so",
 "The curve the library computes on is secp256k1 with its published coefficients, prime, order, cofactor and generator; the main network uses version bytes 80 for private keys and 00 for addresses, the test network EF and 6F. No library call changes any of these once the package is initialised.",
 ["inputs","histories"],"for every sequence of library calls after start-up",
 "Tests see wrong constants only through values that pass through them, and a change made by one call only if a later test happens to depend on it.",
 [BT],[("initialisation","btc.go init")],["results of every operation before and after any other call"],
 [("secp256k1","curve parameters","btc.go"),("MainNetwork, TestNetwork","version bytes","btc.go")])
p("C14","Generated mnemonics are valid BIP-39 sentences",
 "For 12, 15, 18, 21 or 24 words and a list of 2048 words, mnemonic generation returns that many words of the list separated by single spaces; read in order, eleven bits per word and most significant bit first, the word indices spell fresh random entropy of 32 bits per three words followed by the leading bits of its SHA-256 (one checksum bit per 32 entropy bits). For any other count or a list of another size it returns an error and no text.",
 ["inputs"],"for every random draw (in particular entropy or digests with leading zero bits), every word count and every word list",
 "The only test counts the words of the sentence; the checksum and the bit order are never looked at.",
 [MN],[("entropy, checksum and word selection","mnemonic.go NewMnemonic")],["result of NewMnemonic"])
p("C15","Mnemonic checking accepts exactly the valid sentences",
 "Turning a mnemonic into a seed succeeds exactly when the list has 2048 words and the mnemonic consists of 12, 15, 18, 21 or 24 words of the given list, separated by single spaces, whose index bits are an entropy followed by the correct SHA-256 checksum bits (one per 32 entropy bits); anything else gives an error and no seed.",
 ["inputs"],"for every mnemonic string, every word list and every word count",
 "The only test passes one 24-word sentence and asserts nothing.",
 [MN],[("word lookup and checksum comparison","mnemonic.go NewSeedFromMnemonic")],["error of NewSeedFromMnemonic"])
p("C16","The seed is BIP-39's PBKDF2 of mnemonic and passphrase",
 "For a valid mnemonic the returned seed is the 64-byte PBKDF2 with HMAC-SHA512 and 2048 rounds of the mnemonic text, salted with the text 'mnemonic' followed by the passphrase (both texts taken as already in Unicode NFKD form).",
 ["inputs"],"for every valid mnemonic and every passphrase",
 "No test looks at the returned seed.",
 [MN],[("seed derivation","mnemonic.go NewSeedFromMnemonic")],["seed returned by NewSeedFromMnemonic"])
p("C17","The word lists are the published BIP-39 lists",
 "Each of the nine exported word lists consists of exactly the 2048 words of the published BIP-39 list of its language, in the published order and spelling, so all words of a list are distinct and contain no space.",
 ["inputs"],"for every index of every list",
 "Tests use only the English list, and no test compares a word with the published list.",
 [WL],[("list literals","wordlists.go")],["contents of the exported lists, words chosen by NewMnemonic"])
p("C18","All key material comes unaltered from the system's secure randomness",
 "The scalar of a generated key and the entropy of a generated mnemonic are each a fresh draw from the operating system's cryptographic random source for that call, uniform over its range (at least 2^255 values for a key before candidates shorter than 64 hex digits are redrawn, exactly 2^ENT for a mnemonic of ENT entropy bits) and used in full. When the random source fails no key or mnemonic is returned.",
 ["inputs","fault_sequences"],"for every random draw and every failure of the random source",
 "Samples from a predictable or narrowed source look the same to the tests, which check only lengths and range.",
 [UT,PK,MN],[("random scalar","util.go generateRandomBigInt"),("redraw","private_key.go GeneratePrivateKey"),("entropy","mnemonic.go NewMnemonic")],["results of GeneratePrivateKey and NewMnemonic"])
p("C19","Secrets leave the library only through return values",
 "No library call writes a private key, WIF, mnemonic, passphrase, entropy or anything computed from them (other than public keys and addresses) to a log, standard output or error, a file, the network, or package-level state, nor includes such material in the text of an error or panic it creates.",
 ["inputs"],"for every input of every exported operation, on success and on every error path",
 "No test captures output; a leak on one error path changes no return value.",
 [MN,PK,PB,UT],[("absence of output calls","whole package")],["log output, stdout/stderr, files, error texts"])
p("C20","No input makes a library call panic or end the process",
 "For every string, count and word list, every well-formed network and every key the library itself can produce, each exported operation returns normally: it never panics and never terminates the process (a failure of the system's random source during key generation is the only exception).",
 ["inputs"],"for every argument of every exported operation",
 "The tests pass almost only well-formed input; short strings and special points are never tried.",
 [PK,PB,MN,UT],[("length and range checks before slicing, parsing and point arithmetic","all exported functions")],["panics, os.Exit and log.Fatal"])
p("C21","Operations neither modify their arguments nor share state with results",
 "No library call modifies the keys, networks, word lists or other arguments it is given, or any package-level state, and the numbers inside a returned key are not shared with an argument, with package-level state or with another result. Calls may therefore run concurrently on shared keys without synchronisation, and changing one key object never changes another.",
 ["inputs","schedules","histories"],"for every call, every interleaving of concurrent calls and every aliasing of arguments",
 "Tests are sequential and never look at their arguments again; sharing shows only for particular values such as the scalar 1.",
 [PK,PB,MN,BT],[("fresh big integers for every result","all exported functions")],["fields of arguments before and after a call; data races"])
p("C22","Exactly one of result and error is returned",
 "Every operation that reports failure returns either a complete result and no error (or a true flag), or a non-nil error (or a false flag) and no result: never a result together with an error, never neither.",
 ["inputs"],"for every input of every fallible exported operation, and every failure inside it",
 "Tests check a handful of failing inputs and usually look only at one of the two values.",
 [PK,PB,MN],[("error returns","all fallible exported functions")],["result and error of each call"])
p("C23","Apart from generation, results depend only on the arguments",
 "Importing, checking, combining, deriving, formatting, addressing and seeding give the same result whenever they are called with equal arguments: nothing depends on time, randomness, environment, map iteration order, goroutine scheduling or earlier calls.",
 ["inputs","histories","schedules"],"for every argument and every history of earlier calls",
 "Each test calls an operation once per input in a fresh process.",
 [PK,PB,MN,UT,BT],[("absence of ambient reads","all exported functions except GeneratePrivateKey and NewMnemonic")],["results of repeated calls"])
p("C24","Every call finishes",
 "Every exported operation returns after a number of steps bounded by the size of its arguments; the only unbounded repetition is redrawing a random candidate for a private key, each time from fresh randomness and with a positive chance of acceptance.",
 ["inputs"],"for every input of every exported operation",
 "A loop that runs forever only for one particular length or value is not hit by the sampled inputs.",
 [PK,PB,MN,UT],[("loop bounds","all loops and the redraw in GeneratePrivateKey")],["return of every call"])
p("C25","Every exported text form reads back to the same key",
 "A private key's WIF read back for its network, and its hex form, give the same scalar; both text forms of a valid public key parse back to the same point; and every mnemonic the library generates from a published word list is accepted by its own mnemonic check with that list.",
 ["inputs","histories"],"for every key, point, network, form, random draw and word count",
 "Round trips are tested for 12 points and 15 private keys; generated mnemonics are never read back.",
 [PK,PB,MN],[("writer and reader pairs","PrivateFromHex/PrivateFromWIF, Format/PublicFromHex, NewMnemonic/NewSeedFromMnemonic")],["results of the reading operation on the writer's output"])
p("C26","Key addition commutes with public key derivation",
 "For two private keys of one network with different scalars whose sum is not 0 modulo n, the public key of their sum equals the sum of their public keys, in coordinates and in network.",
 ["inputs","histories"],"for all such pairs of private keys",
 "No test relates the private and the public operations.",
 [PK,PB],[("scalar addition","private_key.go AddPrivateKeys"),("point addition","public_key.go AddPublicKeys"),("derivation","public_key.go GetPublicKey")],["GetPublicKey(AddPrivateKeys(a,b)) and AddPublicKeys(GetPublicKey(a),GetPublicKey(b))"])
p("C27","Secret-dependent computation takes constant time",
 "The time and memory accesses of operations on private keys and mnemonics do not depend on the secret values.",
 ["inputs"],"for every pair of secrets of the same form",
 "Tests do not measure time.",
 [PK,PB,MN],[("none: math/big and string conversion are variable time","whole package")],["duration of calls"])
p("C28","Secrets do not remain in memory after use",
 "When an operation returns, no copy of secret input or intermediate secret remains in memory other than in the returned value.",
 ["inputs"],"for every operation on secrets",
 "Tests do not inspect memory.",
 [PK,MN],[("none: immutable Go strings and garbage collection","whole package")],["process memory"])
p("C29","Point arithmetic implements the secp256k1 group",
 "The curve arithmetic the library uses for scalar multiplication, point addition and square roots computes the true group operations of secp256k1 for all operands.",
 ["inputs"],"for all points and scalars",
 "A few dozen fixed vectors pass through it.",
 [PB],[("github.com/aureleoules/ecdsa (pinned dependency)","ScalarMult, AddPoints, GetY")],["coordinates of derived and added keys"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
