ASM = " Trusts Hypothesis, CPython and the oracle code in pbt/."
CHECKS = {
    "C01": ("grammar-based fuzzing of forged archives with canary modules, audit hooks and a result-walk oracle", "exploration",
            "Random search over forged archives; absence of findings is not proof." + ASM),
    "C02": ("fuzzing forged archives under import/open/call audit hooks (inertness invariant)", "exploration",
            "Random search over archives; observes every audit event and canary record of the call." + ASM),
    "C03": ("property-based testing: set-algebra oracle for the audit verdict over dumped and forged archives", "exploration",
            "Random archives and trusted lists in every spelling, exact oracle per case." + ASM),
    "C04": ("property-based round-trip over a zoo of object shapes with a strict structural comparator", "exploration",
            "Random object graphs over an enumerated catalogue of pickle-protocol shapes; comparator is independent of skops." + ASM),
    "C05": ("property-based round-trip over the supported families with a strict comparator", "exploration",
            "Random values of every supported family, two round trips, exact comparator." + ASM),
    "C06": ("property-based testing: identity-partition oracle over aliased object graphs", "exploration",
            "Random aliased graphs with allocator pressure; identity bijection decided exactly per case." + ASM),
    "C07": ("property-based differential testing of original vs reloaded estimators", "exploration",
            "All estimator classes enumerated, hyper-parameters, data and compositions random; outputs compared bitwise." + ASM),
    "C08": ("generated archives x protocol, reference dispatch table and down-conversion oracle", "exploration",
            "Every (loader, protocol) pair enumerated; values random." + ASM),
    "C09": ("stateful model-based testing against a reference section tree", "exploration",
            "Random histories of card operations, exact reference model." + ASM),
    "C10": ("model-based testing against a reference renderer", "exploration",
            "Random cards, exact reference for render, save and TOC." + ASM),
    "C11": ("enumeration plus generated search of names x positions x loaders with semantic family predicates", "exploration",
            "Every default-accepted name and every importable candidate name tried in every name position." + ASM),
    "C12": ("property-based testing: archive validator and differential over sinks and compressions", "exploration",
            "Random objects, all sinks, compression methods and levels." + ASM),
    "C13": ("property-based testing of visualize rows against an independent safety oracle", "exploration",
            "Random dumped and forged archives, all show modes." + ASM),
    "C14": ("property-based testing: reference content model and metamorphic relations for card builders", "exploration",
            "Random tables, metrics, plots and call histories." + ASM),
    "C15": ("grammar-based generation of pandoc documents with a reference outline/content model", "exploration",
            "Random pandoc ASTs; outline and content placement decided exactly." + ASM),
    "C16": ("fault enumeration: kill at every file operation of generated update runs, plus property-based runs", "fault_enumeration",
            "Every audit-visible file operation of each generated scenario is a crash point." + ASM),
    "C17": ("property-based differential testing of convert against pickle", "exploration",
            "Random pickles, paths and flags." + ASM),
    "C18": ("property-based fault injection: poison at every position, destination bytes compared", "exploration",
            "Random objects with unsupported values at generated positions, all sinks." + ASM),
    "C19": ("mutation fuzzing of archives (bytes and schema) in isolated processes with state invariants", "exploration",
            "Random mutations; each runs in a supervised process." + ASM),
    "C20": ("history- and schedule-randomised differential testing against a fresh process", "exploration",
            "Random call sequences and seeded thread schedules." + ASM),
}
