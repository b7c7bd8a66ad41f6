"""Which properties are claimed (id -> level_note) and the manifest's notes."""
G = "Generated cases only: a violation outside the explored cases is possible. "
CLAIMED = {
 "C01": G + "Exact 64-bit integer oracle; amounts biased to boundaries; operations that would overflow are not generated.",
 "C02": G + "Exact 128-bit integer oracle over all registered currencies; overflowing operations are not generated.",
 "C03": G + "Exact 128-bit rational oracle; overflowing products are not generated.",
 "C04": G + "Predefined constants are enumerated exhaustively; free text is sampled.",
 "C05": G + "Exact integer oracle on price and lot.",
 "C06": G + "Set-membership oracle; one recorded finding (classification of doubly closed and doubly open intervals) is excluded by its own key only.",
 "C07": G + "Reference model on digit sequences; hash equality is checked, absence of collisions is not claimed.",
 "C08": G + "Reference model of live elements; capacities up to a few hundred.",
 "C09": G + "Price-time-priority reference matcher; one recorded finding (off-tick prices) is excluded by its own key only.",
 "C10": G + "Price-time-priority reference matcher.",
 "C11": G + "Differential between both books, the reference matcher and an exchange; market, snapshot and replace requests are outside the property.",
 "C12": G + "Long double reference; sub-unit results within rounding distance of an integer accept either neighbour.",
 "C13": G + "Reference dispatcher over generated inboxes and handler registrations.",
 "C33": G + "Reference register of participants and subscriptions; snapshot requests are outside the property.",
 "C14": G + "Reference discrete-event simulator over generated agent programs (up to 40 agents).",
 "C15": G + "Reference discrete-event simulator; the bound a step returns beyond its own window is documented and allowed.",
 "C16": G + "Metamorphic (run twice, vary threads) with ThreadSanitizer over generated agent programs; schedules are those the operating system produces.",
 "C17": G + "Reference population over generated programs with environments built from the library's source.",
 "C18": G + "Reference model of holdings, AddressSanitizer.",
 "C19": G + "Reference ledger over generated transfers delivered through the message system; refused transfers of owners-by-type carry one property.",
 "C20": G + "Exact 128-bit integer oracle for each valuation rule.",
 "C21": G + "Exact sums over generated flows.",
 "C22": G + "Reference register of classes and shareholders; one recorded finding (an announcement date of zero) is excluded by its own key only.",
 "C23": G + "Reference books and registers.",
 "C24": G + "Independent check-digit implementations.",
 "C25": G + "Exact design oracles; variation between seeds is asserted only where coincidence is negligible.",
 "C26": G + "Reference renderer and round-trip parser.",
 "C27": G + "Reference record of observations and stream contents; files are written in a scratch directory.",
 "C28": G + "History oracle and ThreadSanitizer; schedules are those the operating system produces; one recorded finding (pushing to a closed queue) is excluded by its own key only.",
 "C29": G + "Independent mathematical references; floating results are compared within rounding.",
  "C30": G + "Compiled against lib/adept, a small stand-in for the automatic differentiation library, which is not installed; conservation of property and money is judged from the transfers, prices from closed forms where demand has one.",
 "C31": G + "Reference market over generated orders; the multiplier is computed in long double with a tolerance of one sub-unit.",
 "C32": G + "Round trip over generated values; types whose serialization the library does not register or compile are outside the property.",
 "C34": G + "Reference text of the log; ThreadSanitizer for several threads.",
 "C35": G + "Differential against the C++ library (which C01-C34 check); compiled with lib/adept, a stand-in for the automatic differentiation library; one thread; text that the library rejects by an assertion is not generated.",
 "C36": G + "Exact oracle: the generated messages themselves; messages of 71 bytes, up to 11 decimals (more do not fit a lot size).",
}
NOTES = "Property-based testing and fuzzing of INET-Complexity/ESL; see DESIGN.md."
