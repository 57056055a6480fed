"""Which simulated workloads decide which property, and which violations belong to it."""
CRASH = "abort segv signal hang deadlock progress lock diagnostic"
# id: jobs (variant/profile*weight ...), kinds of violation that break the property, evidence that a run was non-trivial (probes and operations, any of them)
P = {
"C01": dict(jobs="base/mix*3 base/conc*2 base/small*2 base/resize base/big base/retire base/zones spin/conc nothread/mix*.5 tag/mix*.5 strong/mix*.5 cpupin/cpu*.5 "
                 "sane/sample*.5 protbig/big*.5 guards/big*.5 permrealloc/resize*.5 prof/mix*.5 nomask/mix*.3 smallmem/mix*.3 vfbs/mix*.3 norand/mix*.3 exper/mix*.3",
            kinds="overlap content unusable unmap-live protect-live discard-live unmapped foreign short perm-reissue early-reissue size calloc " + CRASH,
            nontrivial="reissue bigreuse"),
"C02": dict(jobs="base/sizes*4 base/mix base/big base/zones base/hooks strong/sizes nozero/sizes*.5 sane/sample tag/zones*.5 cpp/sizes*.5 guards/sizes*.5 abortnull/sizes smallmem/sizes*.5",
            kinds="size zone-size strong-size align memalign unmapped short foreign null impossible overlap errno strdup realloc calloc " + CRASH,
            nontrivial="chunksz impossible"),
"C03": dict(jobs="base/zeroed*5 base/mix base/conc*.5 sanit/zeroed protbig/zeroed sane/sample*.5 sane/zeroed*.5 tag/zeroed*.5 populate/zeroed*.5 strong/zeroed*.5 guards/zeroed*.5 cpupin/cpu*.5 nothread/zeroed*.5",
            kinds="calloc content segv signal abort", nontrivial="calloc"),
"C04": dict(jobs="base/resize*5 base/mix permrealloc/resize*2 sane/resize tag/resize*.5 protbig/resize*.7 strong/resize*.5 cpupin/cpu*.5 spin/resize*.5 guards/resize*.5 sanit/resize*.5",
            kinds="realloc content overlap early-reissue perm-reissue perm-big perm-neighbour leak-report usage unmapped short size big-leak unusable unmap-live missed null impossible " + CRASH,
            nontrivial="realloc reallocarray"),
"C05": dict(jobs="base/strings*5 base/zones strong/strings sane/strings tag/strings*.5 guards/strings abortnull/strings cpupin/cpu*.5 nothread/strings*.5",
            kinds="strdup content null null-arg overlap short size isolation strong-size " + CRASH, nontrivial="strdup strndup"),
"C06": dict(jobs="base/misuse*6 sane/misuse tag/misuse strong/misuse*.5 abortnull/misuse*.5 spin/misuse*.5 guards/misuse vfbs/misuse*.5 protbig/misuse permrealloc/misuse*.5 uaf/misuse*.5 nothread/misuse*.5 cpupin/misuse*.5 cpp/misuse",
            kinds="missed overlap early-reissue content foreign isolation " + CRASH, nontrivial="misuse"),
"C07": dict(jobs="base/corrupt*6 base/destroy sane/corrupt tag/corrupt guards/corrupt protbig/corrupt sanit/corrupt strong/corrupt*.5 spin/corrupt*.5 nothread/corrupt*.5 cpupin/corrupt*.5 permrealloc/corrupt*.5",
            kinds="canary-missed canary-byte shared-secret no-decoy missed " + CRASH, nontrivial="corrupt"),
"C08": dict(jobs="base/mix*2 base/conc*2 base/retire base/zones base/big base/perm base/leaks*.5 base/strings*.5 base/resize base/zonelimit*2 base/quar base/destroy*.5 spin/mix*.5 nothread/mix*.5 tag/mix*.7 sanit/mix*.5 "
                 "guards/mix*.5 protbig/mix*.5 sane/mix*.5 strong/mix*.5 cpupin/cpu*.7 prof/mix*.5 libc/mix*.5 cpp/mix*.5 permrealloc/mix*.5 uaf/uaf*.3 vfbs/mix*.4 named/mix*.3 populate/mix*.3 exper/mix*.3 smallmem/mix*.3",
            kinds="null bad-zone null-arg zone-capacity " + CRASH, nontrivial="verify verifyz retire midverify"),
"C09": dict(jobs="base/conc*5 base/bigconc*2 protbig/bigconc*.5 spin/bigconc*.5 base/mix base/cpu base/init spin/conc*2 spinguards/conc*.7 cpupin/conc sane/conc tag/conc*.7 protbig/conc*.7 guards/conc*.7 prof/conc*.7 uaf/conc*.3 spin/init*.5 strong/conc*.5",
            kinds="root-protect overlap content early-reissue unusable unmap-live protect-live big-cache " + CRASH, nontrivial="lockwait spin preempt"),
"C10": dict(jobs="base/quar*5 base/conc base/small spin/quar nothread/quar*.7 sane/quar tag/quar*.7 cpupin/quar sanit/quar*.5 protbig/quar*.5 strong/quar*.5 uaf/quar*.3",
            kinds="early-reissue leak-report retire zone-leak overlap content missed " + CRASH, nontrivial="free bulkfree"),
"C11": dict(jobs="base/perm*6 base/small*.5 permrealloc/resize*2 permrealloc/perm sane/perm tag/perm*.7 strong/perm*.7 cpupin/perm*.7 protbig/perm guards/perm*.7 spin/perm*.5 nothread/perm*.5",
            kinds="perm-reissue perm-big scrub perm-neighbour overlap content leak-report retire missed " + CRASH, nontrivial="permsmall permbig"),
"C12": dict(jobs="base/zones*4 base/capacity*3 base/conc base/perm*.7 strong/zones tag/zones tag/capacity cpupin/zones guards/zones*.7 sane/zones*.7 spin/zones*.7 nothread/capacity*.5 permrealloc/zones*.5 smallmem/zones*.5",
            kinds="isolation zone-capacity zone-count zone-size bad-zone null null-arg overlap foreign short size content strdup " + CRASH, nontrivial="zalloc zfill"),
"C13": dict(jobs="base/zones*3 base/retire*4 base/zonelimit*2 base/conc base/destroy*.7 spin/retire cpupin/retire nothread/retire*.7 guards/retire*.7 tag/zones sanit/retire*.5 sane/retire*.5 smallmem/retire*.5",
            kinds="retire zone-leak bad-zone unusable unmap-live protect-live discard-live isolation content overlap foreign leak-report unmapped usage missed footprint " + CRASH, nontrivial="retire zdestroy"),
"C14": dict(jobs="base/guards*4 base/mix base/big guards/guards*3 metaguard/guards bigguard/guards guards/faults*.7 sane/guards tag/guards*.7 cpupin/guards*.7 spinguards/guards*.5 smallmem/guards*.5 populate/guards*.4 strong/guards*.4",
            kinds="guard segv signal abort unmapped", nontrivial="malloc bulk churn zalloc"),
"C15": dict(jobs="base/zero*5 base/init base/mix nozero/zero*2 sane/zero spin/zero tag/zero*.5 cpp/zero*.5 abortnull/zero*.5 noctor/zero*.5 guards/zero*.5 strong/zero*.5",
            kinds="zero null-arg missed content " + CRASH, nontrivial="zerosize"),
"C16": dict(jobs="base/faults*5 base/benign*2 guards/faults protbig/faults*.7 uaf/faults*.5 uafsig/faults*.5 sane/faults tag/faults*.7 named/faults*.5 abortnull/faults*.7 cpupin/faults*.5 libc/faults*.3 prof/faults*.5 "
                 "sanit/faults*.3 strong/faults*.3 spin/faults*.5 guards/benign*.5 protbig/benign*.5 smallmem/faults*.5 dtor/faults*.3",
            kinds="overlap content unusable unmap-live protect-live discard-live zone-leak unmapped foreign short size null bad-zone errno cxx calloc realloc strdup isolation zone-capacity guard leak-report early-reissue missed retire big-cache big-retire entropy shared-secret canary-byte zero " + CRASH,
            nontrivial="failstop nullret", faults=1),
"C17": dict(jobs="base/leaks*5 base/zonelimit*2 base/conc*.5 base/perm base/zones base/big base/retire*.7 strong/leaks*.7 guards/leaks tag/leaks*.7 cpupin/leaks*.7 sane/leaks*.7 spin/leaks*.7 permrealloc/leaks*.5 smallmem/leaks*.5",
            kinds="leak-report usage abort segv signal hang deadlock lock", nontrivial="leaks zleaks usage"),
"C18": dict(jobs="base/big*6 base/bigconc*3 base/resize base/conc protbig/big*1.5 guards/big*1.5 metaguard/big*.7 bigguard/big*.7 spin/big tag/big*.4 nothread/big*.7 permrealloc/big*.7 base/destroy*.5",
            kinds="big-waste big-retire big-leak big-cache overlap content size short unmapped unmap-live usage leak-report protect destroy-leak perm-big foreign " + CRASH, nontrivial="bignew bigreuse bigretire"),
"C19": dict(jobs="base/foot*5 base/bigconc*1.5 spin/foot nothread/foot tag/foot strong/foot guards/foot protbig/foot cpupin/foot sanit/foot*.5 cppstrong/foot*.5 sane/foot*.5",
            kinds="footprint big-retire big-leak retire zone-leak big-cache " + CRASH, nontrivial="footcheck bigretire"),
"C20": dict(jobs="tag/tags*6 tag/zones*2 tag/mix tag/conc*2 tag/perm tagsanit/tags taguaf/tags tag/strings*.5 tag/faults*.7 tag/capacity*.7",
            kinds="tag missed content isolation zone-capacity overlap zone-count leak-report null size short foreign unusable " + CRASH, nontrivial="tagcheck tagstale"),
"C21": dict(jobs="sane/sample*7 sane/mix sane/conc*.7 sane/resize*.7 sane/strings*.7 sane/perm*.5 sane/zeroed*.7 sane/quar*.5 sane/faults*.7 sane_small/sample*3 dtor/sample*.5 sane/misuse*.5",
            kinds="sample content size overlap calloc realloc strdup short unmapped missed leak-report guard early-reissue unusable unmap-live align foreign strong-size " + CRASH, nontrivial="sample"),
"C22": dict(jobs="sanit/quar*2 sanit/mix*3 sanit/conc sanit/perm sanit/retire sanit/zeroed*.5 protbig/big*3 protbig/bigconc*4 protbig/mix protbig/conc tagsanit/tags tagsanit/mix sanit/faults*.5 protbig/faults*.5",
            kinds="scrub protect protect-live unmap-live canary-byte content unusable overlap " + CRASH, nontrivial="free bulkfree"),
"C23": dict(jobs="base/init*4 base/destroy*4 spin/init guards/destroy protbig/destroy dtor/destroy*2 dtornoctor/init dtornoctor/destroy noctor/init*1.5 tag/init*.5 sane/init*.7 sane/destroy*.7 nozero/init*.5 nothread/destroy*.7 smallmem/destroy*.5 uaf/init*.5 prof/destroy*.5 cpp/init*.5 nothread/init*.5",
            kinds="reinit destroy-leak null overlap content missed zero canary-missed " + CRASH, nontrivial="lazyinit destroy initagain"),
"C24": dict(jobs="base/pair*4 tag/pair*2 guards/pair smallmem/pair strong/pair sane/pair cpupin/pair spin/pair*.5 nothread/pair*.5 base/mix*2 base/zones",
            kinds="predictable shared-secret canary-byte no-decoy entropy", nontrivial="pair decoy"),
"C25": dict(jobs="cpupin/cpu*8 cpupin/conc*2 cpupin/mix cpupin/zones cpupin/retire cpupin/quar*.7 cpupin/faults*.5 cpupin/perm*.7",
            kinds="cpu content overlap early-reissue isolation leak-report null retire " + CRASH, nontrivial="migrate"),
"C26": dict(jobs="libc/memory*8 libc/mix libc/sizes*.3",
            kinds="memcpy missed content " + CRASH, nontrivial="memops memover"),
"C27": dict(jobs="base/hooks*5 cpp/hooks*4 abortnull/hooks sane/hooks*.7 strong/hooks*.7 cppstrong/hooks tag/hooks*.5 base/sizes cpp/faults spin/hooks*.3 guards/hooks*.5 nozero/hooks*.5 cpp/mix*.5",
            kinds="memalign cxx errno impossible null null-arg size align zero short overlap content calloc realloc " + CRASH, nontrivial="memalign hookalloc cxxnew"),
"C28": dict(jobs="strong/mix*3 strong/small*3 strong/strings strong/sizes*2 strong/retire*2 strong/zones*2 strong/conc cppstrong/mix cppstrong/hooks strong/resize strong/perm strong/zeroed*.7",
            kinds="strong-size size isolation content overlap zone-size foreign " + CRASH, nontrivial="chunksz bulk malloc"),
"C29": dict(jobs="prof/prof*8 prof/conc*2 prof/bigconc*.5 prof/mix prof/zones*.5 prof/small*.5 prof/destroy*.7 prof/faults*.5",
            kinds="profile content overlap " + CRASH, nontrivial="profsample"),
"C30": dict(jobs="uaf/uaf*6 uafsig/uaf*4 taguaf/uaf*2 uaf/mix*.7 uafsig/faults*.7",
            kinds="uaf content missed " + CRASH, nontrivial="uafhit uafplant uafderef"),
"C31": dict(jobs="uninit/uninit*8 uninit/sample*2 uninit/mix uninit/conc*1.5 uninit/zeroed uninit/resize uninit/strings*.7 uninit/faults*1.5 uninit/init*.7",
            kinds="missed content calloc sample " + CRASH, nontrivial="uffdread uffdwrite"),
}
# defects of the original code that are recorded, not repaired: identified inside the simulator by the exact situation
KNOWN = {"align": ["C27"], "zone-cycle": ["C19"]}
