// Generated by tools/gen_shapes.py
shapes! {
    &A;
    &mut A;
    &B;
    &mut B;
    &C;
    &mut C;
    &D;
    &mut D;
    &E;
    &mut E;
    &F;
    &mut F;
    &G;
    &mut G;
    (&A,&B);
    (&mut A,&B);
    (&A,&mut B);
    (&mut A,&mut B);
    (&A,&C);
    (&mut A,&C);
    (&A,&mut C);
    (&mut A,&mut C);
    (&A,&D);
    (&mut A,&D);
    (&A,&E);
    (&A,&mut E);
    (&A,&F);
    (&mut A,&mut F);
    (&A,&G);
    (&mut A,&G);
    (&B,&A);
    (&mut B,&A);
    (&B,&mut A);
    (&mut B,&mut A);
    (&B,&C);
    (&B,&mut C);
    (&B,&D);
    (&mut B,&D);
    (&B,&mut D);
    (&mut B,&mut D);
    (&B,&E);
    (&mut B,&E);
    (&B,&mut E);
    (&mut B,&mut E);
    (&B,&F);
    (&mut B,&mut F);
    (&B,&G);
    (&mut B,&G);
    (&C,&A);
    (&C,&mut A);
    (&C,&B);
    (&mut C,&mut B);
    (&C,&D);
    (&mut C,&D);
    (&C,&mut D);
    (&mut C,&mut D);
    (&C,&E);
    (&mut C,&E);
    (&C,&F);
    (&mut C,&F);
    (&C,&mut F);
    (&mut C,&mut F);
    (&C,&G);
    (&mut C,&G);
    (&C,&mut G);
    (&mut C,&mut G);
    (&D,&A);
    (&D,&mut A);
    (&D,&B);
    (&mut D,&mut B);
    (&D,&C);
    (&mut D,&C);
    (&D,&mut C);
    (&mut D,&mut C);
    (&D,&E);
    (&mut D,&E);
    (&D,&mut E);
    (&mut D,&mut E);
    (&D,&F);
    (&mut D,&F);
    (&E,&A);
    (&E,&mut A);
    (&E,&B);
    (&mut E,&mut B);
    (&E,&C);
    (&mut E,&C);
    (&E,&mut C);
    (&mut E,&mut C);
    (&E,&D);
    (&mut E,&D);
    (&E,&F);
    (&mut E,&F);
    (&E,&mut F);
    (&mut E,&mut F);
    (&F,&A);
    (&mut F,&A);
    (&F,&mut A);
    (&mut F,&mut A);
    (&F,&B);
    (&F,&mut B);
    (&F,&C);
    (&mut F,&mut C);
    (&F,&D);
    (&mut F,&D);
    (&F,&E);
    (&F,&mut E);
    (&G,&A);
    (&mut G,&A);
    (&G,&mut A);
    (&mut G,&mut A);
    (&G,&E);
    (&mut G,&mut E);
    (&G,&F);
    (&mut G,&F);
    (&A,&A);
    (&B,&B);
    (&C,&C);
    (&F,&F);
    (&G,&G);
    (&A,&B,&C);
    (&mut A,&B,&C);
    (&C,&B,&A);
    (&C,&mut B,&A);
    (&B,&C,&D);
    (&B,&C,&mut D);
    (&D,&E,&F);
    (&mut D,&mut E,&mut F);
    (&F,&E,&D);
    (&mut F,&E,&D);
    (&A,&E,&C);
    (&A,&mut E,&C);
    (&C,&F,&B);
    (&C,&F,&mut B);
    (&F,&A,&D);
    (&mut F,&mut A,&mut D);
    (&E,&B,&D);
    (&mut E,&B,&D);
    (&D,&C,&A);
    (&D,&mut C,&A);
    (&G,&A,&C);
    (&G,&A,&mut C);
    (&B,&G,&D);
    (&mut B,&mut G,&mut D);
    (&A,&A,&B);
    (&A,&B,&C,&D);
    (&D,&C,&B,&A);
    (&C,&D,&E,&F);
    (&F,&E,&B,&A);
    (&B,&D,&F,&A);
    (&E,&A,&C,&F);
    (&G,&C,&E,&A);
    (&mut A,&B,&mut C,&D);
    (&B,&mut D,&F,&mut A);
    (&mut F,&mut E,&mut B,&mut A);
    (&A,&B,&C,&mut E);
    (&A,&B,&C,&D,&E);
    (&E,&D,&C,&B,&A);
    (&B,&C,&D,&E,&F);
    (&F,&A,&D,&B,&C);
    (&C,&E,&F,&B,&A);
    (&B,&G,&D,&C,&A);
    (&mut A,&B,&mut C,&D,&E);
    (&mut F,&mut E,&mut D,&mut C,&mut B);
    (&B,&A,&mut D,&F,&mut C);
    (&A,&B,&C,&D,&mut E);
    ((&A,&B),&C);
    (&A,(&B,&C));
    ((&A,&B),(&C,&D));
    (&A,((&B,&C),&D));
    ((&mut A,&B),(&mut D,&E),&F);
    (&C,(&A,&B,&D));
    ((&A,&B,&C),&D,(&E,&F));
    (((&A,&B),&C),&D);
    ((&mut B,&F),(&A,&mut C));
    (&D,&C,(&B,&A),&F);
    (&A,&B,&C,&D,(&E,&F));
    ((&A,&B),&A);
    FullOwning<&A,&B>;
    FullOwning<&mut A,&B>;
    FullOwning<&A,&mut B>;
    FullOwning<&mut A,&mut B>;
    FullOwning<&B,&A>;
    FullOwning<&mut B,&A>;
    FullOwning<&B,&mut A>;
    FullOwning<&mut B,&mut A>;
    FullOwning<&A,&C>;
    FullOwning<&mut A,&C>;
    FullOwning<&A,&mut C>;
    FullOwning<&mut A,&mut C>;
    FullOwning<&C,&D>;
    FullOwning<&mut C,&D>;
    FullOwning<&C,&mut D>;
    FullOwning<&mut C,&mut D>;
    FullOwning<&D,&E>;
    FullOwning<&mut D,&E>;
    FullOwning<&D,&mut E>;
    FullOwning<&mut D,&mut E>;
    FullOwning<&B,&E>;
    FullOwning<&mut B,&E>;
    FullOwning<&B,&mut E>;
    FullOwning<&mut B,&mut E>;
    FullOwning<&E,&F>;
    FullOwning<&mut E,&F>;
    FullOwning<&E,&mut F>;
    FullOwning<&mut E,&mut F>;
    FullOwning<&F,&A>;
    FullOwning<&mut F,&A>;
    FullOwning<&F,&mut A>;
    FullOwning<&mut F,&mut A>;
    FullOwning<&D,&C>;
    FullOwning<&mut D,&C>;
    FullOwning<&D,&mut C>;
    FullOwning<&mut D,&mut C>;
    FullOwning<&C,&F>;
    FullOwning<&mut C,&F>;
    FullOwning<&C,&mut F>;
    FullOwning<&mut C,&mut F>;
    FullOwning<&B,&D>;
    FullOwning<&mut B,&D>;
    FullOwning<&B,&mut D>;
    FullOwning<&mut B,&mut D>;
    FullOwning<&E,&C>;
    FullOwning<&mut E,&C>;
    FullOwning<&E,&mut C>;
    FullOwning<&mut E,&mut C>;
    FullOwning<&G,&A>;
    FullOwning<&mut G,&A>;
    FullOwning<&G,&mut A>;
    FullOwning<&mut G,&mut A>;
    FullOwning<&C,&G>;
    FullOwning<&mut C,&G>;
    FullOwning<&C,&mut G>;
    FullOwning<&mut C,&mut G>;
    PartialOwning<&A,&B>;
    PartialOwning<&mut A,&B>;
    PartialOwning<&A,&mut B>;
    PartialOwning<&mut A,&mut B>;
    PartialOwning<&B,&A>;
    PartialOwning<&mut B,&A>;
    PartialOwning<&B,&mut A>;
    PartialOwning<&mut B,&mut A>;
    PartialOwning<&A,&C>;
    PartialOwning<&mut A,&C>;
    PartialOwning<&A,&mut C>;
    PartialOwning<&mut A,&mut C>;
    PartialOwning<&C,&D>;
    PartialOwning<&mut C,&D>;
    PartialOwning<&C,&mut D>;
    PartialOwning<&mut C,&mut D>;
    PartialOwning<&D,&E>;
    PartialOwning<&mut D,&E>;
    PartialOwning<&D,&mut E>;
    PartialOwning<&mut D,&mut E>;
    PartialOwning<&B,&E>;
    PartialOwning<&mut B,&E>;
    PartialOwning<&B,&mut E>;
    PartialOwning<&mut B,&mut E>;
    PartialOwning<&E,&F>;
    PartialOwning<&mut E,&F>;
    PartialOwning<&E,&mut F>;
    PartialOwning<&mut E,&mut F>;
    PartialOwning<&F,&A>;
    PartialOwning<&mut F,&A>;
    PartialOwning<&F,&mut A>;
    PartialOwning<&mut F,&mut A>;
    PartialOwning<&D,&C>;
    PartialOwning<&mut D,&C>;
    PartialOwning<&D,&mut C>;
    PartialOwning<&mut D,&mut C>;
    PartialOwning<&C,&F>;
    PartialOwning<&mut C,&F>;
    PartialOwning<&C,&mut F>;
    PartialOwning<&mut C,&mut F>;
    PartialOwning<&B,&D>;
    PartialOwning<&mut B,&D>;
    PartialOwning<&B,&mut D>;
    PartialOwning<&mut B,&mut D>;
    PartialOwning<&E,&C>;
    PartialOwning<&mut E,&C>;
    PartialOwning<&E,&mut C>;
    PartialOwning<&mut E,&mut C>;
    PartialOwning<&G,&A>;
    PartialOwning<&mut G,&A>;
    PartialOwning<&G,&mut A>;
    PartialOwning<&mut G,&mut A>;
    PartialOwning<&C,&G>;
    PartialOwning<&mut C,&G>;
    PartialOwning<&C,&mut G>;
    PartialOwning<&mut C,&mut G>;
    NonOwning<&A,&B>;
    NonOwning<&mut A,&B>;
    NonOwning<&A,&mut B>;
    NonOwning<&mut A,&mut B>;
    NonOwning<&B,&A>;
    NonOwning<&mut B,&A>;
    NonOwning<&B,&mut A>;
    NonOwning<&mut B,&mut A>;
    NonOwning<&A,&C>;
    NonOwning<&mut A,&C>;
    NonOwning<&A,&mut C>;
    NonOwning<&mut A,&mut C>;
    NonOwning<&C,&D>;
    NonOwning<&mut C,&D>;
    NonOwning<&C,&mut D>;
    NonOwning<&mut C,&mut D>;
    NonOwning<&D,&E>;
    NonOwning<&mut D,&E>;
    NonOwning<&D,&mut E>;
    NonOwning<&mut D,&mut E>;
    NonOwning<&B,&E>;
    NonOwning<&mut B,&E>;
    NonOwning<&B,&mut E>;
    NonOwning<&mut B,&mut E>;
    NonOwning<&E,&F>;
    NonOwning<&mut E,&F>;
    NonOwning<&E,&mut F>;
    NonOwning<&mut E,&mut F>;
    NonOwning<&F,&A>;
    NonOwning<&mut F,&A>;
    NonOwning<&F,&mut A>;
    NonOwning<&mut F,&mut A>;
    NonOwning<&D,&C>;
    NonOwning<&mut D,&C>;
    NonOwning<&D,&mut C>;
    NonOwning<&mut D,&mut C>;
    NonOwning<&C,&F>;
    NonOwning<&mut C,&F>;
    NonOwning<&C,&mut F>;
    NonOwning<&mut C,&mut F>;
    NonOwning<&B,&D>;
    NonOwning<&mut B,&D>;
    NonOwning<&B,&mut D>;
    NonOwning<&mut B,&mut D>;
    NonOwning<&E,&C>;
    NonOwning<&mut E,&C>;
    NonOwning<&E,&mut C>;
    NonOwning<&mut E,&mut C>;
    NonOwning<&G,&A>;
    NonOwning<&mut G,&A>;
    NonOwning<&G,&mut A>;
    NonOwning<&mut G,&mut A>;
    NonOwning<&C,&G>;
    NonOwning<&mut C,&G>;
    NonOwning<&C,&mut G>;
    NonOwning<&mut C,&mut G>;
    (FullOwning<&A,&B>,&C);
    (&C,FullOwning<&A,&B>);
    (PartialOwning<&A,&B>,&D);
    (NonOwning<&A,&B>,&E);
    (&F,NonOwning<&C,&D>);
    (NonOwning<&A,&mut B>,&mut C);
    (FullOwning<&mut C,&mut D>,&A);
    (&mut A,NonOwning<&D,&E>);
    (PartialOwning<&mut E,&F>,&mut A);
    (NonOwning<&A,&C>,NonOwning<&D,&E>);
    (FullOwning<&A,&B>,FullOwning<&C,&D>);
    (FullOwning<&A,&B>,&C,&D);
    (&A,&B,FullOwning<&D,&C>);
    (&E,(PartialOwning<&D,&C>,&A));
    (NonOwning<&B,&D>,&A,&C,&F);
    (&G,FullOwning<&A,&B>);
    (PartialOwning<&G,&A>,&B);
    (&A,Without<&B>);
    (Without<&B>,&A);
    (&B,Without<&A>);
    (Without<&A>,&B);
    (&A,Without<&C>);
    (Without<&C>,&A);
    (&C,Without<&A>);
    (Without<&A>,&C);
    (&B,Without<&C>);
    (Without<&C>,&B);
    (&D,Without<&E>);
    (Without<&E>,&D);
    (&E,Without<&F>);
    (Without<&F>,&E);
    (&F,Without<&A>);
    (Without<&A>,&F);
    (&C,Without<&D>);
    (Without<&D>,&C);
    (&D,Without<&B>);
    (Without<&B>,&D);
    (&E,Without<&A>);
    (Without<&A>,&E);
    (&C,Without<&F>);
    (Without<&F>,&C);
    (&A,Without<&G>);
    (Without<&G>,&A);
    (&G,Without<&B>);
    (Without<&B>,&G);
    (&G,Without<&C>);
    (Without<&C>,&G);
    (&mut A,Without<&B>);
    (Without<&B>,&mut A);
    (&A,Without<&mut B>);
    (Without<&mut C>,&D);
    (&mut E,Without<&mut F>);
    (Without<&mut D>,&mut B);
    (&mut C,Without<&A>);
    (&mut F,Without<&D>);
    (&A,Without<&A>);
    (Without<&B>,&B);
    ((&A,&B),Without<&C>);
    (Without<&C>,(&A,&B));
    ((&mut A,&B),Without<&D>);
    (Without<&F>,(&C,&mut D));
    ((&A,&B,&C),Without<&D>);
    (Without<&E>,(&A,&B,&C,&D));
    (&A,Without<(&B,&C)>);
    (Without<(&B,&C)>,&A);
    (&D,Without<(&A,&B,&C)>);
    (Without<(&C,&D)>,&mut A);
    ((&A,&B),Without<(&C,&D)>);
    (Without<(&E,&F)>,(&A,&B));
    (&A,Without<(&A,&B)>);
    (Without<(&B,&A)>,&A);
    (&A,Without<(&B,Without<&C>)>);
    (Without<(Without<&C>,&B)>,&A);
    (&A,Without<(Without<&B>,&A)>);
    (Without<(&D,Without<(&E,Without<&F>)>)>,&A);
    ((&A,Without<&B>),&C);
    (&C,(&A,Without<&B>));
    ((&A,Without<&B>),Without<&C>);
    (Without<&C>,(Without<&B>,&A));
    ((&A,Without<&B>),(&C,Without<&D>));
    ((&A,Without<&B>),&C,(Without<&D>,&E));
    (&A,(&B,Without<&C>),&D);
    (&mut B,(Without<&A>,&mut D));
    ((Without<&A>,&mut B),Without<(&C,&D)>);
    (Without<((&A,&B),Without<&C>)>,&D);
    (&F,Without<((&A,Without<&B>),&C)>);
    (FullOwning<&A,&B>,Without<&C>);
    (Without<&C>,FullOwning<&A,&B>);
    (&C,Without<FullOwning<&A,&B>>);
    (Without<FullOwning<&A,&B>>,&A);
    (PartialOwning<&A,&B>,Without<&D>);
    (Without<PartialOwning<&A,&B>>,&C);
    (NonOwning<&A,&B>,Without<&C>);
    (&D,Without<NonOwning<&A,&B>>);
    (NonOwning<&mut C,&D>,Without<&A>);
    (Without<NonOwning<&D,&E>>,&mut A);
    (&A,Without<NonOwning<&A,&B>>);
    (&B,Without<PartialOwning<&A,&B>>);
    (&A,Without<(&B,&G)>);
    ((&A,Without<&G>),&C);
    (&D,Without<NonOwning<&C,&G>>);
    NonOwning<&A,&A>;
    NonOwning<&B,&B>;
    NonOwning<&G,&G>;
}

pub const GROUP_PAIRS: [(usize, usize); 14] = [(0, 1), (1, 0), (0, 2), (2, 3), (3, 4), (1, 4), (4, 5), (5, 0), (3, 2), (2, 5), (1, 3), (4, 2), (6, 0), (2, 6)];
