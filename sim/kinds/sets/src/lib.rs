use sim_core::elem::*;
sim_core::sets! {
    bool, P<2>, P<3>, P<31>, P<32>, P<33>, P<64>, P<65>, P<100>, P<300>, P<1000>, P<70000>, P<200000>, Abc, Big, Rich, Option<Neg>, [Big; 3], (), [Abc; 0], Option<P<40>>, (P<5>, bool), Pk8<P<70>>,
}
