P = dict(id='C01', title='Base64 encoding is the standard one and decoding inverts it',
 statement='Encoding any byte sequence yields text of the standard length, made of the 64 alphabet characters and padding, whose characters are the 6-bit groups of the input; decoding the encoding of any byte sequence returns exactly that sequence, including empty input and every residue of the length modulo 3. Decoding arbitrary text never reads or writes outside its buffers.',
 text='Every byte sequence of every length; every text given to the decoder, including bytes above 0x7F.',
 why='The existing tests contain no Base64 case; sampling cannot cover all lengths modulo 3 with all byte values nor all malformed texts.',
 files=['include/arc_utilities/base64_helpers.hpp', 'src/arc_utilities/base64_helpers.cpp'],
 mech=[('6-bit regrouping and padding', 'Base64Helpers::Encode'), ('table lookup and padding removal', 'Base64Helpers::Decode')],
 observe=['return value of Encode and Decode'],
 note='Encode and Decode are proved function by function for every length and content (loop invariants over the output position), and the round trip is a lemma over the two contracts.')
