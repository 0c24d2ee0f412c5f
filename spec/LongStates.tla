----------------------------- MODULE LongStates -----------------------------
(* Generated by tools/gen_long.cpp.  The message is LongPattern repeated: x := x*6364136223846793005 + 1442695040888963407 from x = 20261119,
   byte = x >> 56, period 2^21.  LongState[a][j]: chaining value and pending bytes after LongAt[j] bytes (HMAC with the empty key: the inner stream). *)
LongAt == <<
  <<2304,0,0,0>>,
  <<0,8192,0,0>>,
  <<0,0,1,0>>,
  <<0,32768,2,0>>
>>
LongHead == <<150,60,145,222,249,114,32,130,113,111,110,137,129,148,250,21,9,245,183,153,36,170,219,57,80,214,148,1,243,133,9,207,145,171,95,219,186,181,202,77,249,125,50,189,38,213,149,250,92,186,134,117,156,182,207,104,201,235,255,189,64,186,26,239,
  166,17,39,140,146,178,127,113,171,0,224,131,11,14,25,87,17,143,96,12,108,43,162,81,125,38,14,84,136,251,6,254,245,125,11,128,16,104,26,178,148,202,0,96,110,141,37,135,183,150,72,247,149,101,27,3,209,213,33,31,208,245,7,149,
  153,106,15,175,208,207,20,196,39,135,230,32,198,233,116,15,46,219,214,171,15,25,111,209,147,133,26,134,205,75,142,22,108,211,245,132,218,214,210,93,155,120,110,241,92,100,10,33,148,46,61,147,70,150,105,249,151,170,171,90,92,73,14,84,
  184,42,219,88,137,64,93,213,15,82,197,213,82,225,5,89,214,194,213,207,33,146,67,157,211,64,39,110,176,159,28,250,250,139,21,77,33,228,174,110,246,162,233,60,217,235,66,201,81,236,99,221,29,95,144,202,162,108,99,2,153,33,97,235,
  226,242,3,177,10,105,1,117,226,241,17,179,73,4,248,204,160,71,55,179,162,121,237,36,68,237,31,225,234,222,77,104,0,123,206,54,217,16,171,123,53,45,79,229,139,131,12,218,241,103,69,218,180,168,175,31,243,208,202,52,189,106,61,145,
  198,42,71,141,58,9,61,18,71,244,123,101,164,26,249,57,33,72,116,200,241,10,100,219,159,141,154,170,80,173,85,147,48,117,168,158,96,148,54,232,12,243,219,105,7,132,19,101,106,225,209,251,25,12,171,57,230,241,129,253,6,104,122,203,
  176,100,126,244,198,53,7,153,164,230,241,6,255,221,92,251,150,120,119,57,92,175,216,47,210,250,250,163,112,91,138,65,0,2,201,197,207,108,216,1,12,131,125,109,159,217,33,21,85,228,200,228,63,77,175,51,180,57,126,50,93,3,100,10,
  9,239,56,235,75,154,82,211,165,89,5,91,134,76,108,89,227,83,18,116,46,209,214,49,151,145,14,15,94,244,68,112,68,204,55,214,215,21,137,207,103,130,8,17,39,102,125,69,19,235,138,247,147,70,144,137,222,143,97,221,172,12,180,60,
  209,175,237,238,218,7,69,49,77,43,145,48,112,142,161,211,116,92,118,197,221,185,255,159,7,63,46,134,9,30,118,250,242,251,28,195,9,44,255,190,241,236,233,29,54,224,39,63,172,122,104,209,238,142,79,145,222,26,86,207,210,33,199,225,
  183,145,135,233,88,117,70,102,59,94,253,234,67,57,135,86,236,228,118,82,31,202,38,22,27,92,225,16,153,136,209,189,71,227,172,216,195,65,147,124,176,164,91,72,196,251,127,199,226,13,217,46,98,43,19,230,221,48,89,252,83,45,87,67,
  168,41,135,161,134,10,56,58,43,27,172,150,81,238,144,188,218,30,134,12,21,153,224,129,140,21,116,71,142,253,69,51,189,212,101,23,26,114,168,188,157,42,64,238,53,12,24,97,80,193,19,219,146,3,101,250,76,39,205,164,46,166,97,242,
  223,103,40,224,195,201,71,110,246,201,96,238,31,154,51,4,197,82,180,101,223,179,214,29,124,58,37,145,179,119,50,144,148,232,186,201,127,183,155,182,124,87,31,226,32,132,193,2,149,164,3,172,169,247,123,47,165,54,174,123,119,19,249,155,
  217,89,38,216,200,246,29,164,132,78,188,57,179,212,234,50,64,101,26,210,54,25,99,166,219,180,196,216,19,184,177,190,209,25,110,224,249,234,177,141,227,126,238,75,102,229,7,14,208,4,158,171,14,213,218,73,169,148,233,80,151,120,47,209,
  193,107,15,122,241,97,109,161,124,226,15,234,237,31,24,190,244,15,108,124,223,188,76,129,124,3,228,73,145,73,165,222,13,20,47,11,52,238,141,7,205,81,147,171,112,17,179,221,247,59,249,227,100,127,172,20,231,132,134,226,91,156,83,126,
  39,181,89,203,229,13,13,92,175,3,33,110,108,23,213,4,185,110,189,155,39,131,162,240,55,120,6,255,202,222,149,35,96,105,50,159,188,142,23,45,101,97,98,131,170,33,11,40,212,194,186,135,138,2,122,129,93,251,179,225,48,110,48,235,
  34,26,135,119,146,251,47,172,111,117,181,137,176,189,35,30,51,214,147,92,167,164,22,175,166,28,91,172,81,135,131,30,71,50,224,170,20,238,240,192,219,39,244,46,126,17,223,16,169,140,185,84,152,123,67,167,130,13,249,85,52,226,21,175,
  42,117,43,24,225,9,96,143,107,110,230,44,94,117,35,14,142,15,215,86,4,101,80,140,74,105,254,148,138,48,38,233,97,70,216,226,166,161,193,170,100,225,23,233,121,249,159,170,192,246,236,118,20,249,9,98,8,87,4,215,248,5,187,242,
  78,250,148,252,160,30,99,90,179,55,162,187,239,112,49,57,75,87,94,234,123,122,27,199,33,78,197,127,163,76,85,184,72,132,210,67,152,209,34,199,209,179,188,37,95,163,10,60,123,207,254,63,214,195,86,125,35,0,217,108,34,68,101,203,
  138,144,84,99,106,37,6,71,254,6,223,8,47,126,18,130,64,220,233,17,81,157,102,84,16,41,24,106,111,178,132,184,246,224,47,126,19,253,212,173,72,213,32,152,61,181,45,152,158,56,30,134,100,181,82,162,45,38,106,222,67,255,201,170,
  106,217,23,121,168,143,145,48,89,194,78,156,66,153,142,140,46,141,253,120,137,38,111,86,149,152,85,34,39,19,139,96,119,51,55,160,136,52,126,93,17,207,153,168,224,185,201,59,223,114,230,125,168,143,107,131,228,174,209,224,144,242,156,24,
  70,13,100,145,229,78,111,125,209,247,177,2,36,156,39,251,159,113,228,231,127,165,177,98,169,109,189,15,85,125,58,118,208,245,88,133,244,231,77,250,137,238,189,33,45,184,86,42,8,209,119,71,91,117,175,232,174,226,176,110,96,28,213,61,
  170,248,55,80,6,141,29,127,205,66,12,47,214,252,209,176,234,214,178,87,50,213,71,90,207,16,255,210,105,221,97,132,99,105,234,12,75,167,4,238,163,142,210,86,62,66,43,175,42,96,26,170,133,239,74,170,142,83,124,31,142,17,245,236,
  199,191,159,224,61,163,159,196,28,213,95,66,172,101,194,94,136,30,48,59,110,100,235,8,175,23,189,137,190,123,69,132,58,228,63,15,103,111,106,28,145,217,178,36,79,6,159,93,170,252,8,163,218,51,208,175,189,222,173,100,32,250,247,54,
  16,39,197,88,171,230,236,43,238,250,159,38,112,167,211,243,33,236,245,202,30,106,208,174,185,252,186,220,20,203,184,226,246,46,12,156,58,78,44,17,118,14,169,112,209,98,13,25,57,240,46,180,244,134,79,131,23,217,27,238,223,160,180,191,
  59,151,13,226,18,114,24,172,74,174,18,232,75,77,10,180,247,252,23,108,115,139,236,62,185,21,132,25,189,43,77,61,96,39,120,251,33,145,141,69,64,137,227,13,55,127,30,2,240,82,1,49,148,244,64,34,207,185,2,177,195,71,205,66,
  95,12,46,97,24,16,53,51,163,175,84,190,166,189,59,1,153,232,64,124,171,21,117,255,77,74,202,6,6,82,87,112,190,56,79,111,132,199,135,221,8,1,107,52,74,240,197,113,30,168,205,244,123,186,215,242,6,190,124,58,66,63,126,32,
  243,166,119,143,227,185,44,248,173,163,159,10,125,217,215,38,3,159,18,22,158,169,171,172,167,45,171,63,153,141,171,206,129,51,44,199,58,48,58,148,161,205,241,253,37,224,199,115,149,160,254,32,128,25,89,42,84,122,90,83,10,98,222,209,
  203,166,161,218,37,108,6,37,149,49,38,232,210,89,101,179,145,98,27,151,105,46,53,119,29,109,188,46,227,31,91,170,231,176,163,38,73,126,190,164,30,21,185,110,28,72,192,117,112,224,86,246,246,109,97,14,81,51,189,49,162,243,113,147,
  100,229,224,130,215,96,103,211,42,37,134,3,47,122,49,44,111,115,198,7,208,27,155,111,82,197,136,9,183,76,222,134,156,252,173,160,2,0,197,219,140,76,107,27,45,180,0,4,166,45,22,220,132,199,73,182,172,127,212,155,244,139,21,193,
  33,47,13,174,56,184,51,147,181,15,182,201,121,165,43,41,110,221,23,159,52,117,181,42,24,225,188,87,192,225,91,124,137,53,228,144,144,130,155,69,37,82,192,122,198,156,174,206,230,125,130,11,255,97,26,93,97,155,141,204,207,9,165,143,
  77,253,41,132,208,65,163,23,119,232,244,51,117,41,14,23,97,246,29,9,61,228,15,191,71,222,100,227,116,93,12,210,68,45,90,193,122,150,101,255,178,18,42,77,249,75,16,91,146,167,74,152,248,154,190,101,26,84,62,255,210,191,236,50,
  236,131,137,129,142,243,60,182,29,162,138,192,187,65,57,77,107,143,76,48,140,217,156,113,36,90,204,56,149,246,237,198,229,25,19,205,177,9,194,44,227,148,244,209,118,222,226,29,208,208,193,194,248,113,84,128,210,138,123,229,88,57,174,168,
  204,15,109,135,74,36,110,206,143,199,121,81,22,226,227,21,234,224,79,154,14,165,61,137,41,69,239,236,138,28,48,234,46,59,102,85,29,170,44,30,211,189,142,152,204,221,25,201,1,195,238,191,169,159,222,190,62,158,170,123,84,108,241,154,
  80,32,212,116,43,186,215,84,250,129,90,10,101,33,137,223,225,180,249,189,220,228,235,81,48,206,155,108,255,66,39,192,58,7,217,237,218,189,166,33,14,65,233,54,216,102,133,37,37,200,222,107,104,176,168,109,151,93,7,244,48,38,199,25,
  228,188,202,48,206,197,96,8,247,162,9,105,151,39,185,204,4,96,80,187,172,196,145,40,96,58,149,10,165,15,155,95,50,106,51,228,131,176,172,143,173,128,39,45,107,254,39,188,242,191,185,148,246,225,43,254,198,47,30,183,41,6,64,59,
  37,237,138,127,39,70,189,21,28,150,236,40,83,251,174,44,217,128,246,117,63,230,231,18,96,116,131,112,9,48,196,65,195,56,222,59,70,240,110,5,124,84,250,180,126,116,52,26,165,133,151,205,69,147,69,104,26,153,7,161,176,94,72,185>>
LongState == [
  fnv1a_32 |-> <<[h |-> <<49112,4118>>, buf |-> <<>>], [h |-> <<32197,8874>>, buf |-> <<>>], [h |-> <<40389,36235>>, buf |-> <<>>], [h |-> <<7621,8242>>, buf |-> <<>>]>>,
  fnv1a_64 |-> <<[h |-> <<4536,64790,30034,12659>>, buf |-> <<>>], [h |-> <<17189,46423,468,32359>>, buf |-> <<>>], [h |-> <<8997,3531,33894,36717>>, buf |-> <<>>], [h |-> <<41765,23624,24488,37881>>, buf |-> <<>>]>>,
  md5_128 |-> <<[h |-> <<<<23054,30357>>,<<63812,12650>>,<<3531,40889>>,<<47592,32690>>>>, buf |-> <<>>], [h |-> <<<<8068,42079>>,<<39308,51044>>,<<17669,34240>>,<<27092,9335>>>>, buf |-> <<>>], [h |-> <<<<47284,35643>>,<<37600,12360>>,<<47650,50367>>,<<24279,64400>>>>, buf |-> <<>>], [h |-> <<<<26625,53483>>,<<51226,61800>>,<<24393,64366>>,<<27936,27086>>>>, buf |-> <<>>]>>,
  hmac_md5_128 |-> <<[h |-> <<<<27288,1413>>,<<24234,61697>>,<<3695,57445>>,<<11392,30603>>>>, buf |-> <<>>], [h |-> <<<<46954,62152>>,<<18609,42885>>,<<13755,14151>>,<<37532,519>>>>, buf |-> <<>>], [h |-> <<<<21151,16192>>,<<55764,55055>>,<<40969,25118>>,<<29670,27979>>>>, buf |-> <<>>], [h |-> <<<<46846,62014>>,<<26686,47692>>,<<50318,53069>>,<<64840,1420>>>>, buf |-> <<>>]>>,
  murmur3_128 |-> <<[h |-> <<<<32497,27320,4044,21099>>,<<12972,32174,47105,9386>>>>, buf |-> <<>>], [h |-> <<<<43357,49880,3857,13493>>,<<12543,55973,16169,30249>>>>, buf |-> <<>>], [h |-> <<<<57896,65259,62788,61989>>,<<62587,45740,4069,23837>>>>, buf |-> <<>>], [h |-> <<<<16701,21994,36913,29771>>,<<11098,37791,9940,17641>>>>, buf |-> <<>>]>>,
  murmur3_32 |-> <<[h |-> <<57715,22953>>, buf |-> <<>>], [h |-> <<19043,31521>>, buf |-> <<>>], [h |-> <<12820,17884>>, buf |-> <<>>], [h |-> <<53659,38408>>, buf |-> <<>>]>>,
  ripemd_128 |-> <<[h |-> <<<<32664,63281>>,<<55485,23011>>,<<22485,800>>,<<52712,51713>>>>, buf |-> <<>>], [h |-> <<<<65317,61831>>,<<27745,40820>>,<<12737,56882>>,<<51249,63494>>>>, buf |-> <<>>], [h |-> <<<<42415,33061>>,<<31865,17755>>,<<44085,30321>>,<<55015,44395>>>>, buf |-> <<>>], [h |-> <<<<18439,16548>>,<<50065,20371>>,<<47443,61603>>,<<6302,57913>>>>, buf |-> <<>>]>>,
  hmac_ripemd_128 |-> <<[h |-> <<<<47083,55192>>,<<42995,1070>>,<<32750,54304>>,<<17201,10818>>>>, buf |-> <<>>], [h |-> <<<<31093,39636>>,<<41925,62396>>,<<24724,37029>>,<<8994,42494>>>>, buf |-> <<>>], [h |-> <<<<352,64110>>,<<54865,31392>>,<<63929,38699>>,<<39670,4828>>>>, buf |-> <<>>], [h |-> <<<<53898,46260>>,<<64576,9723>>,<<38243,53734>>,<<5265,5836>>>>, buf |-> <<>>]>>,
  ripemd_160 |-> <<[h |-> <<<<37828,16462>>,<<5342,21493>>,<<57071,42424>>,<<2731,48131>>,<<55083,65504>>>>, buf |-> <<>>], [h |-> <<<<29732,21480>>,<<16476,54002>>,<<29637,39959>>,<<61900,54059>>,<<15833,43786>>>>, buf |-> <<>>], [h |-> <<<<11825,39743>>,<<53982,6521>>,<<28905,11404>>,<<15142,50506>>,<<45335,36138>>>>, buf |-> <<>>], [h |-> <<<<1424,59295>>,<<30241,14867>>,<<42074,37469>>,<<22090,27190>>,<<9867,23358>>>>, buf |-> <<>>]>>,
  hmac_ripemd_160 |-> <<[h |-> <<<<27385,2591>>,<<32119,44675>>,<<32682,12650>>,<<39944,23844>>,<<28479,584>>>>, buf |-> <<>>], [h |-> <<<<62497,63691>>,<<50116,2622>>,<<57757,12089>>,<<43136,64379>>,<<9561,49400>>>>, buf |-> <<>>], [h |-> <<<<28747,26035>>,<<60591,11874>>,<<59998,21442>>,<<65174,61440>>,<<13237,51493>>>>, buf |-> <<>>], [h |-> <<<<51604,62480>>,<<64006,60994>>,<<40532,53697>>,<<33340,27282>>,<<55454,39685>>>>, buf |-> <<>>]>>,
  sha1_160 |-> <<[h |-> <<<<46034,62080>>,<<6487,24122>>,<<5058,53209>>,<<36344,6506>>,<<45139,42866>>>>, buf |-> <<>>], [h |-> <<<<34197,55514>>,<<46066,30771>>,<<61437,51444>>,<<24853,39662>>,<<2987,34193>>>>, buf |-> <<>>], [h |-> <<<<36741,17145>>,<<45524,62170>>,<<16407,59644>>,<<46789,17206>>,<<49822,31456>>>>, buf |-> <<>>], [h |-> <<<<34825,3630>>,<<60039,12596>>,<<36615,41617>>,<<16349,64071>>,<<321,32603>>>>, buf |-> <<>>]>>,
  hmac_sha1_160 |-> <<[h |-> <<<<3509,29928>>,<<19852,33407>>,<<26733,10270>>,<<1537,10864>>,<<19861,56765>>>>, buf |-> <<>>], [h |-> <<<<56993,45764>>,<<44022,62170>>,<<30738,3168>>,<<35388,53433>>,<<42256,22864>>>>, buf |-> <<>>], [h |-> <<<<65010,44236>>,<<20996,35856>>,<<20427,6454>>,<<47531,50680>>,<<45801,44059>>>>, buf |-> <<>>], [h |-> <<<<18201,53213>>,<<8683,53883>>,<<19829,29476>>,<<53665,45063>>,<<37859,28570>>>>, buf |-> <<>>]>>,
  sha2_224 |-> <<[h |-> <<<<64536,13758>>,<<33906,42311>>,<<62341,61359>>,<<51347,1358>>,<<50434,40646>>,<<6976,50346>>,<<60763,29531>>,<<49083,14647>>>>, buf |-> <<>>], [h |-> <<<<2223,27265>>,<<53514,65531>>,<<52954,7851>>,<<34373,7325>>,<<23028,11654>>,<<41246,6310>>,<<11836,56927>>,<<15328,31190>>>>, buf |-> <<>>], [h |-> <<<<29516,21808>>,<<20710,51031>>,<<13341,43953>>,<<15828,11290>>,<<18497,55257>>,<<47231,54938>>,<<20941,56895>>,<<44176,35774>>>>, buf |-> <<>>], [h |-> <<<<13917,61160>>,<<58010,52016>>,<<39019,20204>>,<<61861,44145>>,<<22622,34970>>,<<40401,50960>>,<<54146,4665>>,<<60381,12017>>>>, buf |-> <<>>]>>,
  hmac_sha2_224 |-> <<[h |-> <<<<5098,38478>>,<<20195,25664>>,<<3447,16362>>,<<65205,29395>>,<<15259,38849>>,<<3547,35550>>,<<13283,28987>>,<<53157,28025>>>>, buf |-> <<>>], [h |-> <<<<19805,39459>>,<<62850,30479>>,<<30409,45332>>,<<62857,26569>>,<<31169,61822>>,<<59583,41516>>,<<16405,13134>>,<<57469,43600>>>>, buf |-> <<>>], [h |-> <<<<34468,16131>>,<<7307,63079>>,<<858,34372>>,<<6307,30726>>,<<45719,35524>>,<<1358,49151>>,<<22500,58635>>,<<29067,45822>>>>, buf |-> <<>>], [h |-> <<<<11568,34313>>,<<36967,22166>>,<<65446,29045>>,<<15825,11500>>,<<24415,51394>>,<<22815,20304>>,<<9705,27045>>,<<61594,11803>>>>, buf |-> <<>>]>>,
  sha2_256 |-> <<[h |-> <<<<63858,30304>>,<<17740,3088>>,<<59381,9612>>,<<39314,37063>>,<<45462,56329>>,<<41841,47243>>,<<46017,62943>>,<<34411,18432>>>>, buf |-> <<>>], [h |-> <<<<43021,3476>>,<<61345,49147>>,<<4981,53270>>,<<39813,53838>>,<<1013,18114>>,<<5639,22473>>,<<26557,12980>>,<<30048,40925>>>>, buf |-> <<>>], [h |-> <<<<43028,48518>>,<<350,16176>>,<<2747,2088>>,<<51123,45819>>,<<32695,25261>>,<<23002,56815>>,<<14834,9994>>,<<22576,61552>>>>, buf |-> <<>>], [h |-> <<<<60187,22906>>,<<12137,32465>>,<<48382,5499>>,<<28696,32409>>,<<57200,16885>>,<<53153,37240>>,<<59448,17029>>,<<5821,64387>>>>, buf |-> <<>>]>>,
  hmac_sha2_256 |-> <<[h |-> <<<<11406,36942>>,<<26720,44207>>,<<15240,41651>>,<<58416,60540>>,<<45431,58255>>,<<26174,43362>>,<<53094,39343>>,<<37507,26991>>>>, buf |-> <<>>], [h |-> <<<<58853,64430>>,<<15900,23353>>,<<83,58699>>,<<36694,44720>>,<<31269,53086>>,<<61562,62858>>,<<1647,6880>>,<<55225,7933>>>>, buf |-> <<>>], [h |-> <<<<63468,29679>>,<<22542,52231>>,<<41927,13581>>,<<35984,18561>>,<<64811,60339>>,<<36252,8761>>,<<3507,22017>>,<<64541,30004>>>>, buf |-> <<>>], [h |-> <<<<14492,65070>>,<<52696,58507>>,<<50018,57269>>,<<49296,15674>>,<<39430,55174>>,<<28226,18726>>,<<37903,20875>>,<<14909,17168>>>>, buf |-> <<>>]>>,
  sha2_384 |-> <<[h |-> <<<<17740,3650,20028,4363>>,<<9935,30456,43239,31166>>,<<6508,3274,45800,40848>>,<<11698,34980,15542,41647>>,<<12374,737,41636,57913>>,<<59689,37920,30443,7614>>,<<39481,59983,26463,51946>>,<<63643,62158,57378,50700>>>>, buf |-> <<>>], [h |-> <<<<26035,16663,45435,61494>>,<<42753,62251,6719,33759>>,<<1180,60826,55364,40313>>,<<30319,18183,36201,23174>>,<<27866,52234,47268,43855>>,<<42050,40506,38039,11400>>,<<4320,60602,61056,13112>>,<<61562,44465,62969,27080>>>>, buf |-> <<>>], [h |-> <<<<7838,23324,24845,19318>>,<<20052,220,44501,15750>>,<<4970,35662,38076,34468>>,<<46609,61670,4364,5920>>,<<28354,34710,6704,16557>>,<<17848,51334,41220,23835>>,<<33708,11002,42125,54862>>,<<30998,2617,20987,4503>>>>, buf |-> <<>>], [h |-> <<<<15199,45298,19190,58897>>,<<7747,40161,21529,44506>>,<<58069,26422,35492,35355>>,<<30336,61908,20625,48438>>,<<40158,39093,19,15339>>,<<34522,34241,30334,38979>>,<<47043,40780,14311,50163>>,<<20532,29428,12382,30130>>>>, buf |-> <<>>]>>,
  hmac_sha2_384 |-> <<[h |-> <<<<42325,3621,50308,28228>>,<<29731,9555,5541,7020>>,<<27123,9471,43433,4982>>,<<18640,41632,40842,59656>>,<<44652,17032,56,54881>>,<<61197,35735,11507,51940>>,<<19283,5444,57135,14723>>,<<19740,12970,51505,58980>>>>, buf |-> <<>>], [h |-> <<<<13574,38297,27801,40530>>,<<16647,53456,21278,21035>>,<<22747,31361,40287,36601>>,<<20455,54838,4101,41359>>,<<11577,18924,60525,36144>>,<<19016,12146,34950,31925>>,<<23086,46339,32042,26497>>,<<41397,29678,49539,52304>>>>, buf |-> <<>>], [h |-> <<<<36530,15955,16081,26355>>,<<28480,11782,61324,28524>>,<<62350,25067,56368,13198>>,<<25642,60409,58084,8806>>,<<24977,55223,11106,20528>>,<<50235,64898,37936,13906>>,<<39593,17821,54627,64719>>,<<43857,2489,38214,5005>>>>, buf |-> <<>>], [h |-> <<<<3468,28405,53329,15428>>,<<14309,23511,6164,18433>>,<<9903,39551,18972,22817>>,<<30471,10142,53215,62624>>,<<16596,28950,40391,14510>>,<<27210,46043,594,7473>>,<<61727,29926,28609,36968>>,<<28131,60917,1241,28459>>>>, buf |-> <<>>]>>,
  sha2_512 |-> <<[h |-> <<<<53824,63253,25663,7722>>,<<21043,36503,60281,46868>>,<<33851,30708,49723,53116>>,<<23577,61511,11661,39530>>,<<52692,26314,15762,17598>>,<<9306,30323,208,59250>>,<<30359,63686,60716,724>>,<<20784,37144,42922,3898>>>>, buf |-> <<>>], [h |-> <<<<15046,47203,35289,15453>>,<<43884,20229,29032,33155>>,<<54215,28923,38853,55751>>,<<41289,209,61706,41057>>,<<20932,18557,7711,37159>>,<<21951,37056,63788,60567>>,<<3796,12461,56899,19269>>,<<13185,212,41507,37354>>>>, buf |-> <<>>], [h |-> <<<<52549,53329,56905,58068>>,<<49714,40984,17808,40179>>,<<46320,56008,27720,43956>>,<<11993,63819,4311,15954>>,<<46342,41590,16084,3953>>,<<1166,32300,17072,61442>>,<<37680,42141,29684,28442>>,<<33098,45179,35440,44672>>>>, buf |-> <<>>], [h |-> <<<<42177,57756,43773,24168>>,<<13796,11924,61814,56385>>,<<33846,19027,46057,18810>>,<<11725,51526,31264,40600>>,<<231,25255,52030,28969>>,<<57461,2271,57716,36990>>,<<54508,15982,46057,59878>>,<<52352,15610,5507,5098>>>>, buf |-> <<>>]>>,
  hmac_sha2_512 |-> <<[h |-> <<<<13141,35350,31585,37729>>,<<48204,3652,19684,40130>>,<<30370,59083,24131,20143>>,<<38860,11558,41015,37311>>,<<63381,54437,52300,40022>>,<<55003,47085,47906,50506>>,<<65397,17015,52352,34783>>,<<19175,31072,2381,35557>>>>, buf |-> <<>>], [h |-> <<<<39329,9834,34866,751>>,<<16616,7083,62752,47068>>,<<64803,60393,57860,8254>>,<<50547,7996,52930,48233>>,<<1454,41637,4071,33751>>,<<36617,4711,62127,55968>>,<<34265,23154,41261,3002>>,<<63757,31831,14271,26022>>>>, buf |-> <<>>], [h |-> <<<<13903,27664,14365,64022>>,<<34882,41522,59517,7933>>,<<11440,61134,33967,31791>>,<<31145,40118,20842,16419>>,<<4721,7444,34079,63633>>,<<11595,7777,54318,1314>>,<<4159,27101,60551,49015>>,<<11092,63126,14976,50844>>>>, buf |-> <<>>], [h |-> <<<<57635,57211,35282,41175>>,<<19082,22749,25854,39559>>,<<11617,63653,59062,44889>>,<<57062,4707,6569,60092>>,<<27601,3192,21025,30856>>,<<11747,37192,63407,47472>>,<<52458,36060,18096,48>>,<<59355,8277,65409,8325>>>>, buf |-> <<>>]>>,
  sha2_512_224 |-> <<[h |-> <<<<47788,41984,1958,30940>>,<<43815,961,53110,55636>>,<<38012,38591,52912,45693>>,<<39391,58307,16784,39289>>,<<379,38397,37961,30129>>,<<49443,35259,59327,29494>>,<<33190,46570,7765,45101>>,<<22821,45203,10008,19992>>>>, buf |-> <<>>], [h |-> <<<<63691,4366,19766,39949>>,<<51048,2737,58439,4654>>,<<40516,56065,64497,46041>>,<<26426,45384,56646,55771>>,<<26447,47923,46691,64256>>,<<61765,13254,22524,5865>>,<<38049,27931,46043,48688>>,<<43858,9007,54492,40263>>>>, buf |-> <<>>], [h |-> <<<<5242,61659,30335,58086>>,<<48306,16129,13134,64139>>,<<61991,11111,3466,492>>,<<38875,16872,29530,18124>>,<<17113,50741,5336,22828>>,<<60100,4990,25922,18535>>,<<22255,43802,3342,60999>>,<<33315,44105,13297,19480>>>>, buf |-> <<>>], [h |-> <<<<20563,24913,33581,1533>>,<<48985,20430,5168,38924>>,<<31557,52090,11144,43656>>,<<16171,37915,32098,6878>>,<<36239,54965,34281,59530>>,<<60617,8467,10405,19919>>,<<11271,61615,20373,41483>>,<<49780,37150,17871,45857>>>>, buf |-> <<>>]>>,
  hmac_sha2_512_224 |-> <<[h |-> <<<<10125,29821,44271,53984>>,<<25971,38832,62595,45826>>,<<30594,8015,22310,3255>>,<<63069,42068,40031,32227>>,<<30989,19726,5961,18803>>,<<6222,64392,27216,29603>>,<<64621,14321,34287,9637>>,<<19569,49696,44277,60682>>>>, buf |-> <<>>], [h |-> <<<<8542,43823,33358,46739>>,<<20028,49547,4572,19571>>,<<7932,33845,21158,1941>>,<<26981,20522,15923,25665>>,<<47753,37099,61678,12394>>,<<3588,3748,29450,39226>>,<<35902,2232,5320,15267>>,<<65254,15098,62047,15910>>>>, buf |-> <<>>], [h |-> <<<<45750,1573,47830,8126>>,<<2131,62566,46618,32138>>,<<62228,46253,15285,44654>>,<<29376,1530,24016,21951>>,<<38064,34459,6574,40567>>,<<48025,18566,13988,34264>>,<<37230,15187,16806,39784>>,<<30455,7077,14414,9678>>>>, buf |-> <<>>], [h |-> <<<<15865,10155,479,12402>>,<<45780,15657,36988,54385>>,<<28723,14465,11001,48813>>,<<12030,34313,17247,57029>>,<<9260,64580,41679,6011>>,<<40709,8035,23803,7735>>,<<64529,61283,43459,42385>>,<<37604,43836,37039,27561>>>>, buf |-> <<>>]>>,
  sha2_512_256 |-> <<[h |-> <<<<7869,63866,8122,22884>>,<<33401,53284,16530,12032>>,<<10084,8227,8714,5418>>,<<13350,6227,46469,48419>>,<<58443,6350,36177,61168>>,<<64695,935,40019,39876>>,<<56109,30353,28381,1337>>,<<51307,41120,17883,21426>>>>, buf |-> <<>>], [h |-> <<<<111,40224,35793,52996>>,<<32548,6383,53672,47176>>,<<53674,27873,6022,43808>>,<<16324,1434,39233,13284>>,<<26802,36739,29509,57606>>,<<21207,21808,61609,2643>>,<<51822,58844,14889,62203>>,<<41682,37400,49910,49329>>>>, buf |-> <<>>], [h |-> <<<<4156,23457,11239,3792>>,<<51999,24195,25469,19872>>,<<42279,30925,11667,1700>>,<<58000,52512,23698,58467>>,<<49920,10883,31667,25896>>,<<65385,24594,37066,59552>>,<<5220,50967,1573,4015>>,<<37544,56166,36316,8017>>>>, buf |-> <<>>], [h |-> <<<<50537,35177,61152,21772>>,<<57753,15725,61644,33620>>,<<11099,26957,1153,30411>>,<<33263,31100,51158,45462>>,<<25556,46583,46954,23463>>,<<3136,20766,20281,29802>>,<<38255,63664,19939,50334>>,<<58078,58102,61687,20154>>>>, buf |-> <<>>]>>,
  hmac_sha2_512_256 |-> <<[h |-> <<<<61696,35330,10980,57623>>,<<5346,22236,28411,28381>>,<<16904,54731,12732,64778>>,<<35631,53768,20569,50767>>,<<25866,29040,49162,23340>>,<<3516,19353,23594,63702>>,<<41112,63714,61903,24570>>,<<26284,54524,25810,36134>>>>, buf |-> <<>>], [h |-> <<<<24,14787,3758,1862>>,<<18980,3685,8898,13140>>,<<46963,47589,36509,4870>>,<<15366,64449,16161,15649>>,<<5419,63277,41699,42918>>,<<79,38705,50953,47415>>,<<14332,15157,54402,38794>>,<<51931,23982,38490,32926>>>>, buf |-> <<>>], [h |-> <<<<5397,37950,16733,33667>>,<<56519,42953,17695,19990>>,<<9188,42006,42726,24486>>,<<43336,10789,34547,6980>>,<<4711,59507,50507,32164>>,<<60048,50432,4446,61286>>,<<59042,21112,44923,54739>>,<<22873,61196,28485,32714>>>>, buf |-> <<>>], [h |-> <<<<9058,56034,15699,60519>>,<<41438,30207,25713,2331>>,<<40403,6369,57966,17608>>,<<41176,60864,23162,16649>>,<<11848,42469,12343,35678>>,<<60533,2164,45301,59382>>,<<29498,34306,41825,4873>>,<<31659,17379,11044,26703>>>>, buf |-> <<>>]>>,
  siphash_32 |-> <<[h |-> <<<<37316,26489>>,<<1335,38478>>,<<1909,49756>>,<<49051,34577>>>>, buf |-> <<>>], [h |-> <<<<56737,53229>>,<<44634,1495>>,<<49433,10573>>,<<1311,7547>>>>, buf |-> <<>>], [h |-> <<<<18964,5692>>,<<4502,47280>>,<<53740,48234>>,<<5054,46122>>>>, buf |-> <<>>], [h |-> <<<<5103,22007>>,<<30730,11165>>,<<7442,50338>>,<<33231,23663>>>>, buf |-> <<>>]>>,
  siphash_64 |-> <<[h |-> <<<<21214,64573,18040,58243>>,<<36588,47676,58157,38731>>,<<37629,4757,2632,498>>,<<59728,48750,36573,22203>>>>, buf |-> <<>>], [h |-> <<<<5253,11852,24795,47811>>,<<38528,16307,25572,13084>>,<<14342,19841,31077,2377>>,<<53768,32813,32739,35497>>>>, buf |-> <<>>], [h |-> <<<<62153,29915,62103,28914>>,<<28062,2011,57797,50783>>,<<2750,31701,31810,23375>>,<<37516,19763,7880,20260>>>>, buf |-> <<>>], [h |-> <<<<57428,39754,25492,20607>>,<<40459,20482,44307,46531>>,<<25975,60456,4139,22957>>,<<35079,42267,442,20100>>>>, buf |-> <<>>]>>,
  spooky2_128 |-> <<[h |-> <<<<19831,48357,2830,38698>>,<<21943,56962,24762,14325>>,<<59073,12807,19965,24018>>,<<50742,46982,17443,7473>>,<<64813,38785,597,55990>>,<<2950,55831,44684,55486>>,<<43490,57482,54801,63037>>,<<31553,8665,11129,13430>>,<<40649,33888,1078,37002>>,<<41082,35830,56514,57572>>,<<25937,44913,51174,36294>>,<<52825,13396,40528,31348>>>>, buf |-> <<>>], [h |-> <<<<4648,64059,21966,4943>>,<<1574,62648,3022,58017>>,<<59869,21662,19100,54613>>,<<21196,26027,28877,9976>>,<<56537,1365,29612,45537>>,<<17978,53410,15777,24373>>,<<46052,54018,39958,38191>>,<<18963,51360,34174,60933>>,<<47662,27222,1753,26661>>,<<17813,47988,57447,14476>>,<<60575,33731,24211,23310>>,<<56235,27308,31195,64484>>>>, buf |-> <<105,163,219,173,203,230,209,76,238,112,207,96,2,122,50,182,217,148,69,13,219,117,221,220,133,25,44,203,69,1,101,120,15,72,36,213,114,162,224,75,40,252,158,97,76,59,251,231,25,220,77,230,57,5,254,120,122,167,169,150,233,157,40,165,234,156,192,194,45,159,226,200,164,219,195,120,223,114,179,245,53,203,123,146,39,104,235,191,240,118,34,84,119,46,48,237,226,234,119,215,214,79,6,14,219,37,67,36,232,209,85,159,120,183,16,251,109,24,16,193,94,61,105,101,154,35,46,20>>], [h |-> <<<<64224,33464,22995,50110>>,<<41114,59577,24479,39528>>,<<54371,40112,53286,30318>>,<<16985,49281,2188,44704>>,<<51802,30239,54272,59715>>,<<12887,27168,63325,39522>>,<<9880,18416,61051,25008>>,<<38780,43020,3063,21499>>,<<56926,17789,39963,14876>>,<<31614,6476,7668,1612>>,<<12277,20911,60501,36666>>,<<25163,10282,64523,15935>>>>, buf |-> <<234,156,192,194,45,159,226,200,164,219,195,120,223,114,179,245,53,203,123,146,39,104,235,191,240,118,34,84,119,46,48,237,226,234,119,215,214,79,6,14,219,37,67,36,232,209,85,159,120,183,16,251,109,24,16,193,94,61,105,101,154,35,46,20>>], [h |-> <<<<56425,21790,55993,49389>>,<<26488,21853,42590,26204>>,<<51260,49214,5375,47559>>,<<58270,18340,59855,49549>>,<<17960,58198,56945,16214>>,<<47020,36919,29771,3356>>,<<28931,4152,34996,31063>>,<<38846,7039,36180,18758>>,<<54737,56455,63518,65251>>,<<2661,1692,60653,36686>>,<<6051,60130,60938,59695>>,<<24705,37184,9093,61846>>>>, buf |-> <<234,156,192,194,45,159,226,200,164,219,195,120,223,114,179,245,53,203,123,146,39,104,235,191,240,118,34,84,119,46,48,237,226,234,119,215,214,79,6,14,219,37,67,36,232,209,85,159,120,183,16,251,109,24,16,193,94,61,105,101,154,35,46,20>>]>>,
  xxhash_32 |-> <<[h |-> <<<<22349,36981>>,<<24968,8831>>,<<61200,38983>>,<<6722,59868>>>>, buf |-> <<>>], [h |-> <<<<26177,31713>>,<<60274,11225>>,<<34257,51867>>,<<28372,30593>>>>, buf |-> <<>>], [h |-> <<<<37091,50677>>,<<26691,42706>>,<<65410,47148>>,<<29074,21879>>>>, buf |-> <<>>], [h |-> <<<<12967,61606>>,<<32409,2309>>,<<991,62017>>,<<24258,58833>>>>, buf |-> <<>>]>>,
  xxhash_64 |-> <<[h |-> <<<<31522,20681,1282,34072>>,<<48027,64352,14544,17725>>,<<12144,31102,7652,22333>>,<<8175,5895,4315,54548>>>>, buf |-> <<>>], [h |-> <<<<15273,11730,27751,13734>>,<<55456,44640,62947,29097>>,<<16938,24951,14362,27474>>,<<13684,46457,16946,5264>>>>, buf |-> <<>>], [h |-> <<<<49130,25386,59887,31187>>,<<10477,28860,57351,56915>>,<<54302,40825,21518,36876>>,<<22018,9815,28132,26513>>>>, buf |-> <<>>], [h |-> <<<<12739,65145,64745,51875>>,<<44489,33544,29033,17851>>,<<12727,12658,21927,5780>>,<<37038,38134,30910,13203>>>>, buf |-> <<>>]>>
]
=============================================================================
