------------------------------ MODULE HashConst ------------------------------
(* Generated by harness/gen_hashconst.py: square and cube roots of primes (FIPS 180-4), the Keccak LFSR and rho
   walk (FIPS 202), and the RIPEMD-160 permutations.  Words are sequences of 16-bit limbs, see Words.tla. *)

SHA256_H == <<
    <<27145, 58983>>,
    <<47975, 44677>>,
    <<15470, 62322>>,
    <<42319, 62778>>,
    <<20750, 21119>>,
    <<39685, 26764>>,
    <<8067, 55723>>,
    <<23520, 52505>> >>
SHA256_K == <<
    <<17034, 12184>>,
    <<28983, 17553>>,
    <<46528, 64463>>,
    <<59829, 56229>>,
    <<14678, 49755>>,
    <<23025, 4593>>,
    <<37439, 33444>>,
    <<43804, 24277>>,
    <<55303, 43672>>,
    <<4739, 23297>>,
    <<9265, 34238>>,
    <<21772, 32195>>,
    <<29374, 23924>>,
    <<32990, 45566>>,
    <<39900, 1703>>,
    <<49563, 61812>>,
    <<58523, 27073>>,
    <<61374, 18310>>,
    <<4033, 40390>>,
    <<9228, 41420>>,
    <<11753, 11375>>,
    <<19060, 33962>>,
    <<23728, 43484>>,
    <<30457, 35034>>,
    <<38974, 20818>>,
    <<43057, 50797>>,
    <<45059, 10184>>,
    <<48985, 32711>>,
    <<50912, 3059>>,
    <<54695, 37191>>,
    <<1738, 25425>>,
    <<5161, 10599>>,
    <<10167, 2693>>,
    <<11803, 8504>>,
    <<19756, 28156>>,
    <<21304, 3347>>,
    <<25866, 29524>>,
    <<30314, 2747>>,
    <<33218, 51502>>,
    <<37490, 11397>>,
    <<41663, 59553>>,
    <<43034, 26187>>,
    <<49739, 35696>>,
    <<51052, 20899>>,
    <<53650, 59417>>,
    <<54937, 1572>>,
    <<62478, 13701>>,
    <<4202, 41072>>,
    <<6564, 49430>>,
    <<7735, 27656>>,
    <<10056, 30540>>,
    <<13488, 48309>>,
    <<14620, 3251>>,
    <<20184, 43594>>,
    <<23452, 51791>>,
    <<26670, 28659>>,
    <<29839, 33518>>,
    <<30885, 25455>>,
    <<33992, 30740>>,
    <<36039, 520>>,
    <<37054, 65530>>,
    <<42064, 27883>>,
    <<48889, 41975>>,
    <<50801, 30962>> >>
SHA512_H == <<
    <<27145, 58983, 62396, 51464>>,
    <<47975, 44677, 33994, 42811>>,
    <<15470, 62322, 65172, 63531>>,
    <<42319, 62778, 24349, 14065>>,
    <<20750, 21119, 44518, 33489>>,
    <<39685, 26764, 11070, 27679>>,
    <<8067, 55723, 64321, 48491>>,
    <<23520, 52505, 4990, 8569>> >>
SHA512_K == <<
    <<17034, 12184, 55080, 44578>>,
    <<28983, 17553, 9199, 26061>>,
    <<46528, 64463, 60493, 15151>>,
    <<59829, 56229, 33161, 56252>>,
    <<14678, 49755, 62280, 46392>>,
    <<23025, 4593, 46597, 53273>>,
    <<37439, 33444, 44825, 20379>>,
    <<43804, 24277, 55917, 33048>>,
    <<55303, 43672, 41731, 578>>,
    <<4739, 23297, 17776, 28606>>,
    <<9265, 34238, 20196, 45708>>,
    <<21772, 32195, 54783, 46306>>,
    <<29374, 23924, 62075, 35183>>,
    <<32990, 45566, 15126, 38577>>,
    <<39900, 1703, 9671, 4661>>,
    <<49563, 61812, 53097, 9876>>,
    <<58523, 27073, 40689, 19154>>,
    <<61374, 18310, 14415, 9699>>,
    <<4033, 40390, 35724, 54709>>,
    <<9228, 41420, 30636, 40037>>,
    <<11753, 11375, 22827, 629>>,
    <<19060, 33962, 28326, 58499>>,
    <<23728, 43484, 48449, 64468>>,
    <<30457, 35034, 33553, 21429>>,
    <<38974, 20818, 61030, 57259>>,
    <<43057, 50797, 11700, 12816>>,
    <<45059, 10184, 39163, 8511>>,
    <<48985, 32711, 48879, 3812>>,
    <<50912, 3059, 15784, 36802>>,
    <<54695, 37191, 37642, 42789>>,
    <<1738, 25425, 57347, 33391>>,
    <<5161, 10599, 2574, 28272>>,
    <<10167, 2693, 18130, 12284>>,
    <<11803, 8504, 23590, 51494>>,
    <<19756, 28156, 23236, 10989>>,
    <<21304, 3347, 40341, 46047>>,
    <<25866, 29524, 35759, 25566>>,
    <<30314, 2747, 15479, 45736>>,
    <<33218, 51502, 18413, 44774>>,
    <<37490, 11397, 5250, 13627>>,
    <<41663, 59553, 19697, 868>>,
    <<43034, 26187, 48194, 12289>>,
    <<49739, 35696, 53496, 38801>>,
    <<51052, 20899, 1620, 48688>>,
    <<53650, 59417, 55023, 21016>>,
    <<54937, 1572, 21861, 43280>>,
    <<62478, 13701, 22385, 8234>>,
    <<4202, 41072, 12987, 53688>>,
    <<6564, 49430, 47314, 53448>>,
    <<7735, 27656, 20801, 43859>>,
    <<10056, 30540, 57230, 60313>>,
    <<13488, 48309, 57755, 18600>>,
    <<14620, 3251, 50633, 23139>>,
    <<20184, 43594, 58177, 35531>>,
    <<23452, 51791, 30563, 58227>>,
    <<26670, 28659, 54962, 47267>>,
    <<29839, 33518, 24047, 45820>>,
    <<30885, 25455, 17175, 12128>>,
    <<33992, 30740, 41456, 43890>>,
    <<36039, 520, 6756, 14828>>,
    <<37054, 65530, 9059, 7720>>,
    <<42064, 27883, 56962, 48617>>,
    <<48889, 41975, 45766, 30997>>,
    <<50801, 30962, 58226, 21291>>,
    <<51751, 16078, 59942, 24988>>,
    <<53638, 47303, 8640, 49671>>,
    <<60122, 32214, 52704, 60190>>,
    <<62845, 20351, 61038, 53624>>,
    <<1776, 26538, 29207, 28602>>,
    <<2659, 32197, 41672, 39078>>,
    <<4415, 38916, 48889, 3502>>,
    <<7025, 2869, 4892, 18203>>,
    <<10459, 30709, 8964, 32132>>,
    <<13002, 43899, 16583, 9363>>,
    <<15518, 48650, 5577, 48828>>,
    <<17181, 26564, 39952, 3404>>,
    <<19653, 54462, 52030, 17078>>,
    <<22911, 10652, 64613, 32298>>,
    <<24523, 28587, 15062, 64236>>,
    <<27716, 6540, 19015, 22551>> >>
RMD_RL == <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8, 3, 10, 14, 4, 9, 15, 8, 1, 2, 7, 0, 6, 13, 11, 5, 12, 1, 9, 11, 10, 0, 8, 12, 4, 13, 3, 7, 15, 14, 5, 6, 2, 4, 0, 5, 9, 7, 12, 2, 10, 14, 1, 3, 8, 11, 6, 15, 13>>
RMD_RR == <<5, 14, 7, 0, 9, 2, 11, 4, 13, 6, 15, 8, 1, 10, 3, 12, 6, 11, 3, 7, 0, 13, 5, 10, 14, 15, 8, 12, 4, 9, 1, 2, 15, 5, 1, 3, 7, 14, 6, 9, 11, 8, 12, 2, 10, 0, 4, 13, 8, 6, 4, 1, 3, 11, 15, 0, 5, 12, 2, 13, 9, 7, 10, 14, 12, 15, 10, 4, 1, 5, 8, 7, 6, 2, 13, 14, 0, 3, 9, 11>>
RMD_SL == <<11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8, 7, 6, 8, 13, 11, 9, 7, 15, 7, 12, 15, 9, 11, 7, 13, 12, 11, 13, 6, 7, 14, 9, 13, 15, 14, 8, 13, 6, 5, 12, 7, 5, 11, 12, 14, 15, 14, 15, 9, 8, 9, 14, 5, 6, 8, 6, 5, 12, 9, 15, 5, 11, 6, 8, 13, 12, 5, 12, 13, 14, 11, 8, 5, 6>>
RMD_SR == <<8, 9, 9, 11, 13, 15, 15, 5, 7, 7, 8, 11, 14, 14, 12, 6, 9, 13, 15, 7, 12, 8, 9, 11, 7, 7, 12, 7, 6, 15, 13, 11, 9, 7, 15, 11, 8, 6, 6, 14, 12, 13, 5, 14, 13, 13, 7, 5, 15, 5, 8, 11, 14, 14, 6, 14, 6, 9, 12, 9, 12, 5, 15, 8, 8, 5, 12, 9, 12, 5, 14, 6, 8, 13, 6, 5, 15, 13, 11, 11>>
RMD_KL == <<
    <<0, 0>>,
    <<23170, 31129>>,
    <<28377, 60321>>,
    <<36635, 48348>>,
    <<43347, 64846>> >>
RMD_KR == <<
    <<20642, 35814>>,
    <<23629, 53540>>,
    <<28016, 16115>>,
    <<31341, 30441>>,
    <<0, 0>> >>
RMD_H == <<
    <<26437, 8961>>,
    <<61389, 43913>>,
    <<39098, 56574>>,
    <<4146, 21622>>,
    <<50130, 57840>> >>
KECCAK_RC == <<
    <<0, 0, 0, 1>>,
    <<0, 0, 0, 32898>>,
    <<32768, 0, 0, 32906>>,
    <<32768, 0, 32768, 32768>>,
    <<0, 0, 0, 32907>>,
    <<0, 0, 32768, 1>>,
    <<32768, 0, 32768, 32897>>,
    <<32768, 0, 0, 32777>>,
    <<0, 0, 0, 138>>,
    <<0, 0, 0, 136>>,
    <<0, 0, 32768, 32777>>,
    <<0, 0, 32768, 10>>,
    <<0, 0, 32768, 32907>>,
    <<32768, 0, 0, 139>>,
    <<32768, 0, 0, 32905>>,
    <<32768, 0, 0, 32771>>,
    <<32768, 0, 0, 32770>>,
    <<32768, 0, 0, 128>>,
    <<0, 0, 0, 32778>>,
    <<32768, 0, 32768, 10>>,
    <<32768, 0, 32768, 32897>>,
    <<32768, 0, 0, 32896>>,
    <<0, 0, 32768, 1>>,
    <<32768, 0, 32768, 32776>> >>
\* Lane (x, y) is element 5*y + x + 1
KECCAK_ROT == <<0, 1, 62, 28, 27, 36, 44, 6, 55, 20, 3, 10, 43, 25, 39, 41, 45, 15, 21, 8, 18, 2, 61, 56, 14>>
=============================================================================
