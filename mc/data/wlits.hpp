// generated: literal, its value in 1/65536 rounded half to even (exact rational arithmetic)
L(0_w, "0", 0)
L(1_w, "1", 65536)
L(9_w, "9", 589824)
L(10_w, "10", 655360)
L(25_w, "25", 1638400)
L(32767_w, "32767", 2147418112)
L(12345_w, "12345", 809041920)
L(0.5_w, "0.5", 32768)
L(.5_w, ".5", 32768)
L(5._w, "5.", 327680)
L(0.25_w, "0.25", 16384)
L(1.75_w, "1.75", 114688)
L(32767.5_w, "32767.5", 2147450880)
L(32767.99998_w, "32767.99998", 2147483647)
L(0.00001_w, "0.00001", 1)
L(0.000015_w, "0.000015", 1)
L(0.0000076_w, "0.0000076", 0)
L(0.0000077_w, "0.0000077", 1)
L(0.0000229_w, "0.0000229", 2)
L(00.5_w, "00.5", 32768)
L(7.0_w, "7.0", 458752)
L(7.000_w, "7.000", 458752)
L(1.0000152587890625_w, "1.0000152587890625", 65537)
L(0.0000152587890625_w, "0.0000152587890625", 1)
L(0.00000762939453125_w, "0.00000762939453125", 0)
L(0.00002288818359375_w, "0.00002288818359375", 2)
L(0.9999_w, "0.9999", 65529)
L(0.99999_w, "0.99999", 65535)
L(0.999999_w, "0.999999", 65536)
L(0.9999923_w, "0.9999923", 65535)
L(0.9999924_w, "0.9999924", 65536)
L(0.99999999999999_w, "0.99999999999999", 65536)
L(1.33333333333333_w, "1.33333333333333", 87381)
L(0.333333333333333_w, "0.333333333333333", 21845)
L(0.666666666666666_w, "0.666666666666666", 43691)
L(0.999999999999999_w, "0.999999999999999", 65536)
L(0.3333333333333333_w, "0.3333333333333333", 21845)
L(0.6666666666666666_w, "0.6666666666666666", 43691)
L(0.9999999999999999_w, "0.9999999999999999", 65536)
L(32766.9999999999999999_w, "32766.9999999999999999", 2147418112)
L(123.4567890123456_w, "123.4567890123456", 8090864)
L(0.1234567890123456_w, "0.1234567890123456", 8091)
L(0.00000000000001_w, "0.00000000000001", 0)
L(0.000000000000001_w, "0.000000000000001", 0)
L(0.0000000000000001_w, "0.0000000000000001", 0)
L(2.1_w, "2.1", 137626)
L(0.9_w, "0.9", 58982)
L(2.5_w, "2.5", 163840)
L(2.9_w, "2.9", 190054)
L(2.3_w, "2.3", 150733)
L(2.11_w, "2.11", 138281)
L(0.05_w, "0.05", 3277)
L(0.99_w, "0.99", 64881)
L(2.55_w, "2.55", 167117)
L(2.99_w, "2.99", 195953)
L(2.37_w, "2.37", 155320)
L(2.111_w, "2.111", 138346)
L(0.005_w, "0.005", 328)
L(0.999_w, "0.999", 65470)
L(2.555_w, "2.555", 167444)
L(2.999_w, "2.999", 196542)
L(2.373_w, "2.373", 155517)
L(2.1111_w, "2.1111", 138353)
L(0.0005_w, "0.0005", 33)
L(2.5555_w, "2.5555", 167477)
L(2.9999_w, "2.9999", 196601)
L(2.3737_w, "2.3737", 155563)
L(2.11111_w, "2.11111", 138354)
L(0.00005_w, "0.00005", 3)
L(2.55555_w, "2.55555", 167481)
L(2.99999_w, "2.99999", 196607)
L(2.37373_w, "2.37373", 155565)
L(2.111111_w, "2.111111", 138354)
L(0.000005_w, "0.000005", 0)
L(2.555555_w, "2.555555", 167481)
L(2.999999_w, "2.999999", 196608)
L(2.373737_w, "2.373737", 155565)
L(2.1111111_w, "2.1111111", 138354)
L(0.0000005_w, "0.0000005", 0)
L(0.9999999_w, "0.9999999", 65536)
L(2.5555555_w, "2.5555555", 167481)
L(2.9999999_w, "2.9999999", 196608)
L(2.3737373_w, "2.3737373", 155565)
L(2.11111111_w, "2.11111111", 138354)
L(0.00000005_w, "0.00000005", 0)
L(0.99999999_w, "0.99999999", 65536)
L(2.55555555_w, "2.55555555", 167481)
L(2.99999999_w, "2.99999999", 196608)
L(2.37373737_w, "2.37373737", 155565)
L(2.111111111_w, "2.111111111", 138354)
L(0.000000005_w, "0.000000005", 0)
L(0.999999999_w, "0.999999999", 65536)
L(2.555555555_w, "2.555555555", 167481)
L(2.999999999_w, "2.999999999", 196608)
L(2.373737373_w, "2.373737373", 155565)
L(2.1111111111_w, "2.1111111111", 138354)
L(0.0000000005_w, "0.0000000005", 0)
L(0.9999999999_w, "0.9999999999", 65536)
L(2.5555555555_w, "2.5555555555", 167481)
L(2.9999999999_w, "2.9999999999", 196608)
L(2.3737373737_w, "2.3737373737", 155565)
L(2.11111111111_w, "2.11111111111", 138354)
L(0.00000000005_w, "0.00000000005", 0)
L(0.99999999999_w, "0.99999999999", 65536)
L(2.55555555555_w, "2.55555555555", 167481)
L(2.99999999999_w, "2.99999999999", 196608)
L(2.37373737373_w, "2.37373737373", 155565)
L(2.111111111111_w, "2.111111111111", 138354)
L(0.000000000005_w, "0.000000000005", 0)
L(0.999999999999_w, "0.999999999999", 65536)
L(2.555555555555_w, "2.555555555555", 167481)
L(2.999999999999_w, "2.999999999999", 196608)
L(2.373737373737_w, "2.373737373737", 155565)
L(2.1111111111111_w, "2.1111111111111", 138354)
L(0.0000000000005_w, "0.0000000000005", 0)
L(0.9999999999999_w, "0.9999999999999", 65536)
L(2.5555555555555_w, "2.5555555555555", 167481)
L(2.9999999999999_w, "2.9999999999999", 196608)
L(2.3737373737373_w, "2.3737373737373", 155565)
L(2.11111111111111_w, "2.11111111111111", 138354)
L(0.00000000000005_w, "0.00000000000005", 0)
L(2.55555555555555_w, "2.55555555555555", 167481)
L(2.99999999999999_w, "2.99999999999999", 196608)
L(2.37373737373737_w, "2.37373737373737", 155565)
L(2.111111111111111_w, "2.111111111111111", 138354)
L(0.000000000000005_w, "0.000000000000005", 0)
L(2.555555555555555_w, "2.555555555555555", 167481)
L(2.999999999999999_w, "2.999999999999999", 196608)
L(2.373737373737373_w, "2.373737373737373", 155565)
L(3.00000000_w, "3.00000000", 196608)
L(3.01171875_w, "3.01171875", 197376)
L(3.02343750_w, "3.02343750", 198144)
L(3.03515625_w, "3.03515625", 198912)
L(3.04687500_w, "3.04687500", 199680)
L(3.05859375_w, "3.05859375", 200448)
L(3.07031250_w, "3.07031250", 201216)
L(3.08203125_w, "3.08203125", 201984)
L(3.09375000_w, "3.09375000", 202752)
L(3.10546875_w, "3.10546875", 203520)
L(3.11718750_w, "3.11718750", 204288)
L(3.12890625_w, "3.12890625", 205056)
L(3.14062500_w, "3.14062500", 205824)
L(3.15234375_w, "3.15234375", 206592)
L(3.16406250_w, "3.16406250", 207360)
L(3.17578125_w, "3.17578125", 208128)
L(3.18750000_w, "3.18750000", 208896)
L(3.19921875_w, "3.19921875", 209664)
L(3.21093750_w, "3.21093750", 210432)
L(3.22265625_w, "3.22265625", 211200)
L(3.23437500_w, "3.23437500", 211968)
L(3.24609375_w, "3.24609375", 212736)
L(3.25781250_w, "3.25781250", 213504)
L(3.26953125_w, "3.26953125", 214272)
L(3.28125000_w, "3.28125000", 215040)
L(3.29296875_w, "3.29296875", 215808)
L(3.30468750_w, "3.30468750", 216576)
L(3.31640625_w, "3.31640625", 217344)
L(3.32812500_w, "3.32812500", 218112)
L(3.33984375_w, "3.33984375", 218880)
L(3.35156250_w, "3.35156250", 219648)
L(3.36328125_w, "3.36328125", 220416)
L(3.37500000_w, "3.37500000", 221184)
L(3.38671875_w, "3.38671875", 221952)
L(3.39843750_w, "3.39843750", 222720)
L(3.41015625_w, "3.41015625", 223488)
L(3.42187500_w, "3.42187500", 224256)
L(3.43359375_w, "3.43359375", 225024)
L(3.44531250_w, "3.44531250", 225792)
L(3.45703125_w, "3.45703125", 226560)
L(3.46875000_w, "3.46875000", 227328)
L(3.48046875_w, "3.48046875", 228096)
L(3.49218750_w, "3.49218750", 228864)
L(3.50390625_w, "3.50390625", 229632)
L(3.51562500_w, "3.51562500", 230400)
L(3.52734375_w, "3.52734375", 231168)
L(3.53906250_w, "3.53906250", 231936)
L(3.55078125_w, "3.55078125", 232704)
L(3.56250000_w, "3.56250000", 233472)
L(3.57421875_w, "3.57421875", 234240)
L(3.58593750_w, "3.58593750", 235008)
L(3.59765625_w, "3.59765625", 235776)
L(3.60937500_w, "3.60937500", 236544)
L(3.62109375_w, "3.62109375", 237312)
L(3.63281250_w, "3.63281250", 238080)
L(3.64453125_w, "3.64453125", 238848)
L(3.65625000_w, "3.65625000", 239616)
L(3.66796875_w, "3.66796875", 240384)
L(3.67968750_w, "3.67968750", 241152)
L(3.69140625_w, "3.69140625", 241920)
L(3.70312500_w, "3.70312500", 242688)
L(3.71484375_w, "3.71484375", 243456)
L(3.72656250_w, "3.72656250", 244224)
L(3.73828125_w, "3.73828125", 244992)
L(3.75000000_w, "3.75000000", 245760)
L(3.76171875_w, "3.76171875", 246528)
L(3.77343750_w, "3.77343750", 247296)
L(3.78515625_w, "3.78515625", 248064)
L(3.79687500_w, "3.79687500", 248832)
L(3.80859375_w, "3.80859375", 249600)
L(3.82031250_w, "3.82031250", 250368)
L(3.83203125_w, "3.83203125", 251136)
L(3.84375000_w, "3.84375000", 251904)
L(3.85546875_w, "3.85546875", 252672)
L(3.86718750_w, "3.86718750", 253440)
L(3.87890625_w, "3.87890625", 254208)
L(3.89062500_w, "3.89062500", 254976)
L(3.90234375_w, "3.90234375", 255744)
L(3.91406250_w, "3.91406250", 256512)
L(3.92578125_w, "3.92578125", 257280)
L(3.93750000_w, "3.93750000", 258048)
L(3.94921875_w, "3.94921875", 258816)
L(3.96093750_w, "3.96093750", 259584)
L(3.97265625_w, "3.97265625", 260352)
L(3.98437500_w, "3.98437500", 261120)
L(3.99609375_w, "3.99609375", 261888)
L(1.0000457763671875_w, "1.0000457763671875", 65539)
L(1.0000762939453125_w, "1.0000762939453125", 65541)
L(1.0001068115234375_w, "1.0001068115234375", 65543)
L(1.4999847412109375_w, "1.4999847412109375", 98303)
L(1.5000152587890625_w, "1.5000152587890625", 98305)
L(1.9999847412109375_w, "1.9999847412109375", 131071)
