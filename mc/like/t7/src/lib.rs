// generated by tools/gen_like.py
use likesut::*;
pub fn all(v: &mut Vec<Ty>) {
    v.push(Ty::of::<(((Tri,bool,),Tri,),(Option<bool>,[Tri;2],),)>("(((Tri,bool,),Tri,),(Option<bool>,[Tri;2],),)"));
    v.push(Ty::of::<(((Tri,bool,),Tri,),Option<Result<bool,Tri>>,((Tri,bool,),Tri,),)>("(((Tri,bool,),Tri,),Option<Result<bool,Tri>>,((Tri,bool,),Tri,),)"));
    v.push(Ty::of::<(((Tri,bool,),Tri,),Option<[Never;1]>,((Tri,bool,),Tri,),)>("(((Tri,bool,),Tri,),Option<[Never;1]>,((Tri,bool,),Tri,),)"));
    v.push(Ty::of::<((),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),)>("((),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),)"));
    v.push(Ty::of::<((),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),)>("((),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),)"));
    v.push(Ty::of::<((),(),)>("((),(),)"));
    v.push(Ty::of::<((),(),Tri,Tri,)>("((),(),Tri,Tri,)"));
    v.push(Ty::of::<((),Five,(),)>("((),Five,(),)"));
    v.push(Ty::of::<((),Never,Tri,)>("((),Never,Tri,)"));
    v.push(Ty::of::<((),Option<()>,)>("((),Option<()>,)"));
    v.push(Ty::of::<((),Result<Tri,bool>,(),)>("((),Result<Tri,bool>,(),)"));
    v.push(Ty::of::<((),Result<bool,()>,)>("((),Result<bool,()>,)"));
    v.push(Ty::of::<((),Tri,Two,(),)>("((),Tri,Two,(),)"));
    v.push(Ty::of::<((),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),)>("((),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),)"));
    v.push(Ty::of::<((),Two,(),Wide,(),Two,)>("((),Two,(),Wide,(),Two,)"));
    v.push(Ty::of::<((),Two,Tri,Two,)>("((),Two,Tri,Two,)"));
    v.push(Ty::of::<((),Wide,(),Two,(),)>("((),Wide,(),Two,(),)"));
    v.push(Ty::of::<((),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),)>("((),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),)"));
    v.push(Ty::of::<((),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,)>("((),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,)"));
    v.push(Ty::of::<((),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,)>("((),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,)"));
    v.push(Ty::of::<((),[Tri;3],)>("((),[Tri;3],)"));
    v.push(Ty::of::<((),[bool;2],(),)>("((),[bool;2],(),)"));
    v.push(Ty::of::<((Option<bool>,[Tri;2],),(Option<bool>,[Tri;2],),(Option<bool>,[Tri;2],),)>("((Option<bool>,[Tri;2],),(Option<bool>,[Tri;2],),(Option<bool>,[Tri;2],),)"));
    v.push(Ty::of::<((Option<bool>,[Tri;2],),(Result<Never,Never>,bool,),(Option<bool>,[Tri;2],),)>("((Option<bool>,[Tri;2],),(Result<Never,Never>,bool,),(Option<bool>,[Tri;2],),)"));
    v.push(Ty::of::<((Option<bool>,[Tri;2],),Result<(Tri,bool,),[bool;3]>,)>("((Option<bool>,[Tri;2],),Result<(Tri,bool,),[bool;3]>,)"));
    v.push(Ty::of::<((Result<Never,Never>,bool,),(Result<Never,Never>,bool,),(Result<Never,Never>,bool,),)>("((Result<Never,Never>,bool,),(Result<Never,Never>,bool,),(Result<Never,Never>,bool,),)"));
    v.push(Ty::of::<((Result<Never,Never>,bool,),Result<(Tri,bool,),[bool;3]>,)>("((Result<Never,Never>,bool,),Result<(Tri,bool,),[bool;3]>,)"));
    v.push(Ty::of::<((Tri,),(Tri,),)>("((Tri,),(Tri,),)"));
    v.push(Ty::of::<((Tri,),(bool,Tri,),)>("((Tri,),(bool,Tri,),)"));
    v.push(Ty::of::<((Tri,),Never,)>("((Tri,),Never,)"));
    v.push(Ty::of::<((Tri,),Result<Never,Tri>,(Tri,),)>("((Tri,),Result<Never,Tri>,(Tri,),)"));
    v.push(Ty::of::<((Tri,),[Tri;3],(Tri,),)>("((Tri,),[Tri;3],(Tri,),)"));
    v.push(Ty::of::<((Tri,),[bool;2],)>("((Tri,),[bool;2],)"));
    v.push(Ty::of::<((bool,Tri,),Option<Never>,(bool,Tri,),)>("((bool,Tri,),Option<Never>,(bool,Tri,),)"));
    v.push(Ty::of::<((bool,Tri,),Option<Tri>,)>("((bool,Tri,),Option<Tri>,)"));
    v.push(Ty::of::<(D17,Never,)>("(D17,Never,)"));
    v.push(Ty::of::<(Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),)>("(Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),)"));
    v.push(Ty::of::<(Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),)>("(Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),)"));
    v.push(Ty::of::<(Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,)>("(Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,)"));
    v.push(Ty::of::<(Five,(),One,Five,(),One,Five,)>("(Five,(),One,Five,(),One,Five,)"));
    v.push(Ty::of::<(Five,Five,(),)>("(Five,Five,(),)"));
    v.push(Ty::of::<(Five,Five,)>("(Five,Five,)"));
    v.push(Ty::of::<(Five,Never,Tri,)>("(Five,Never,Tri,)"));
    v.push(Ty::of::<(Five,bool,Five,)>("(Five,bool,Five,)"));
    v.push(Ty::of::<(Four,(),)>("(Four,(),)"));
    v.push(Ty::of::<(Four,Wide,)>("(Four,Wide,)"));
    v.push(Ty::of::<(Four,bool,(),Four,bool,(),Four,bool,(),)>("(Four,bool,(),Four,bool,(),Four,bool,(),)"));
    v.push(Ty::of::<(Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,)>("(Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,)"));
    v.push(Ty::of::<(Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,)>("(Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,)"));
    v.push(Ty::of::<(Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,)>("(Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,)"));
    v.push(Ty::of::<(Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,)>("(Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,)"));
    v.push(Ty::of::<(Four,bool,(),Four,bool,)>("(Four,bool,(),Four,bool,)"));
    v.push(Ty::of::<(H62,)>("(H62,)"));
    v.push(Ty::of::<(H62,bool,)>("(H62,bool,)"));
    v.push(Ty::of::<(Never,(),bool,)>("(Never,(),bool,)"));
    v.push(Ty::of::<(Never,(bool,Tri,),)>("(Never,(bool,Tri,),)"));
    v.push(Ty::of::<(Never,H62,)>("(Never,H62,)"));
    v.push(Ty::of::<(Never,Never,Five,)>("(Never,Never,Five,)"));
    v.push(Ty::of::<(Never,Result<Never,Tri>,)>("(Never,Result<Never,Tri>,)"));
    v.push(Ty::of::<(Never,Tri,)>("(Never,Tri,)"));
    v.push(Ty::of::<(Never,[Tri;0],Never,)>("(Never,[Tri;0],Never,)"));
    v.push(Ty::of::<(One,D17,)>("(One,D17,)"));
    v.push(Ty::of::<(One,Two,)>("(One,Two,)"));
    v.push(Ty::of::<(Option<()>,(),Option<()>,)>("(Option<()>,(),Option<()>,)"));
    v.push(Ty::of::<(Option<()>,Option<bool>,)>("(Option<()>,Option<bool>,)"));
    v.push(Ty::of::<(Option<()>,Result<Tri,bool>,)>("(Option<()>,Result<Tri,bool>,)"));
    v.push(Ty::of::<(Option<()>,Result<bool,()>,Option<()>,)>("(Option<()>,Result<bool,()>,Option<()>,)"));
    v.push(Ty::of::<(Option<Never>,(Tri,),)>("(Option<Never>,(Tri,),)"));
    v.push(Ty::of::<(Option<Never>,Option<()>,)>("(Option<Never>,Option<()>,)"));
    v.push(Ty::of::<(Option<Never>,Result<bool,()>,)>("(Option<Never>,Result<bool,()>,)"));
    v.push(Ty::of::<(Option<Never>,bool,)>("(Option<Never>,bool,)"));
    v.push(Ty::of::<(Option<Result<bool,Tri>>,(Result<Never,Never>,bool,),)>("(Option<Result<bool,Tri>>,(Result<Never,Never>,bool,),)"));
    v.push(Ty::of::<(Option<Result<bool,Tri>>,Option<[Never;1]>,Option<Result<bool,Tri>>,)>("(Option<Result<bool,Tri>>,Option<[Never;1]>,Option<Result<bool,Tri>>,)"));
    v.push(Ty::of::<(Option<Result<bool,Tri>>,Result<(Tri,bool,),[bool;3]>,Option<Result<bool,Tri>>,)>("(Option<Result<bool,Tri>>,Result<(Tri,bool,),[bool;3]>,Option<Result<bool,Tri>>,)"));
    v.push(Ty::of::<(Option<Result<bool,Tri>>,[Option<()>;4],)>("(Option<Result<bool,Tri>>,[Option<()>;4],)"));
    v.push(Ty::of::<(Option<Tri>,(Tri,),Option<Tri>,)>("(Option<Tri>,(Tri,),Option<Tri>,)"));
    v.push(Ty::of::<(Option<Tri>,Result<Never,Tri>,)>("(Option<Tri>,Result<Never,Tri>,)"));
    v.push(Ty::of::<(Option<Tri>,Tri,)>("(Option<Tri>,Tri,)"));
    v.push(Ty::of::<(Option<[Never;0]>,Option<Result<bool,Tri>>,)>("(Option<[Never;0]>,Option<Result<bool,Tri>>,)"));
    v.push(Ty::of::<(Option<[Never;0]>,[(bool,Tri,);2],)>("(Option<[Never;0]>,[(bool,Tri,);2],)"));
    v.push(Ty::of::<(Option<[Never;1]>,(Option<bool>,[Tri;2],),Option<[Never;1]>,)>("(Option<[Never;1]>,(Option<bool>,[Tri;2],),Option<[Never;1]>,)"));
    v.push(Ty::of::<(Option<[Never;1]>,(Result<Never,Never>,bool,),Option<[Never;1]>,)>("(Option<[Never;1]>,(Result<Never,Never>,bool,),Option<[Never;1]>,)"));
    v.push(Ty::of::<(Option<[Never;1]>,)>("(Option<[Never;1]>,)"));
    v.push(Ty::of::<(Option<[Never;1]>,Option<[Never;0]>,)>("(Option<[Never;1]>,Option<[Never;0]>,)"));
    v.push(Ty::of::<(Option<[Never;1]>,Result<Option<Never>,Option<bool>>,)>("(Option<[Never;1]>,Result<Option<Never>,Option<bool>>,)"));
    v.push(Ty::of::<(Option<bool>,Option<bool>,)>("(Option<bool>,Option<bool>,)"));
    v.push(Ty::of::<(Option<bool>,Option<bool>,Option<bool>,)>("(Option<bool>,Option<bool>,Option<bool>,)"));
    v.push(Ty::of::<(Option<bool>,Result<Tri,bool>,Option<bool>,)>("(Option<bool>,Result<Tri,bool>,Option<bool>,)"));
    v.push(Ty::of::<(Option<bool>,bool,Option<bool>,)>("(Option<bool>,bool,Option<bool>,)"));
    v.push(Ty::of::<(Result<(Tri,bool,),[bool;3]>,((Tri,bool,),Tri,),Result<(Tri,bool,),[bool;3]>,)>("(Result<(Tri,bool,),[bool;3]>,((Tri,bool,),Tri,),Result<(Tri,bool,),[bool;3]>,)"));
    v.push(Ty::of::<(Result<(Tri,bool,),[bool;3]>,[(bool,Tri,);2],)>("(Result<(Tri,bool,),[bool;3]>,[(bool,Tri,);2],)"));
    v.push(Ty::of::<(Result<Never,Tri>,(),Result<Never,Tri>,)>("(Result<Never,Tri>,(),Result<Never,Tri>,)"));
    v.push(Ty::of::<(Result<Never,Tri>,[Tri;0],)>("(Result<Never,Tri>,[Tri;0],)"));
    v.push(Ty::of::<(Result<Never,Tri>,[Tri;0],Result<Never,Tri>,)>("(Result<Never,Tri>,[Tri;0],Result<Never,Tri>,)"));
    v.push(Ty::of::<(Result<Option<Never>,Option<bool>>,(Result<Never,Never>,bool,),)>("(Result<Option<Never>,Option<bool>>,(Result<Never,Never>,bool,),)"));
    v.push(Ty::of::<(Result<Option<Never>,Option<bool>>,Result<Option<Never>,Option<bool>>,)>("(Result<Option<Never>,Option<bool>>,Result<Option<Never>,Option<bool>>,)"));
    v.push(Ty::of::<(Result<Option<Never>,Option<bool>>,[Option<()>;4],Result<Option<Never>,Option<bool>>,)>("(Result<Option<Never>,Option<bool>>,[Option<()>;4],Result<Option<Never>,Option<bool>>,)"));
    v.push(Ty::of::<(Result<Tri,bool>,)>("(Result<Tri,bool>,)"));
    v.push(Ty::of::<(Result<Tri,bool>,Never,)>("(Result<Tri,bool>,Never,)"));
    v.push(Ty::of::<(Result<Tri,bool>,Tri,Result<Tri,bool>,)>("(Result<Tri,bool>,Tri,Result<Tri,bool>,)"));
    v.push(Ty::of::<(Result<Tri,bool>,[bool;2],)>("(Result<Tri,bool>,[bool;2],)"));
    v.push(Ty::of::<(Result<bool,()>,(Tri,),Result<bool,()>,)>("(Result<bool,()>,(Tri,),Result<bool,()>,)"));
    v.push(Ty::of::<(Result<bool,()>,Option<()>,Result<bool,()>,)>("(Result<bool,()>,Option<()>,Result<bool,()>,)"));
    v.push(Ty::of::<(Result<bool,()>,Result<bool,()>,)>("(Result<bool,()>,Result<bool,()>,)"));
    v.push(Ty::of::<(Result<bool,()>,Tri,)>("(Result<bool,()>,Tri,)"));
    v.push(Ty::of::<(Result<bool,()>,bool,Result<bool,()>,)>("(Result<bool,()>,bool,Result<bool,()>,)"));
    v.push(Ty::of::<(Tri,(),Tri,)>("(Tri,(),Tri,)"));
    v.push(Ty::of::<(Tri,(),Two,Tri,)>("(Tri,(),Two,Tri,)"));
    v.push(Ty::of::<(Tri,(),bool,One,Two,Tri,(),bool,One,Two,)>("(Tri,(),bool,One,Two,Tri,(),bool,One,Two,)"));
    v.push(Ty::of::<(Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),)>("(Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),)"));
    v.push(Ty::of::<(Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),)>("(Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),)"));
    v.push(Ty::of::<(Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,)>("(Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,)"));
    v.push(Ty::of::<(Tri,Never,(),)>("(Tri,Never,(),)"));
    v.push(Ty::of::<(Tri,One,)>("(Tri,One,)"));
    v.push(Ty::of::<(Tri,Option<bool>,Tri,)>("(Tri,Option<bool>,Tri,)"));
    v.push(Ty::of::<(Tri,Tri,(),Tri,)>("(Tri,Tri,(),Tri,)"));
    v.push(Ty::of::<(Tri,Tri,bool,)>("(Tri,Tri,bool,)"));
    v.push(Ty::of::<(Tri,Two,(),(),)>("(Tri,Two,(),(),)"));
    v.push(Ty::of::<(Tri,Two,Two,Two,)>("(Tri,Two,Two,Two,)"));
    v.push(Ty::of::<(Tri,[Tri;0],)>("(Tri,[Tri;0],)"));
    v.push(Ty::of::<(Tri,bool,bool,)>("(Tri,bool,bool,)"));
    v.push(Ty::of::<(Tri,bool,bool,bool,bool,bool,bool,)>("(Tri,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(Tri,bool,bool,bool,bool,bool,bool,bool,bool,)>("(Tri,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(Two,(),Two,Tri,)>("(Two,(),Two,Tri,)"));
    v.push(Ty::of::<(Two,H62,)>("(Two,H62,)"));
    v.push(Ty::of::<(Two,Tri,(),bool,One,Two,)>("(Two,Tri,(),bool,One,Two,)"));
    v.push(Ty::of::<(Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,)>("(Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,)"));
    v.push(Ty::of::<(Two,Tri,Two,(),)>("(Two,Tri,Two,(),)"));
    v.push(Ty::of::<(Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,)>("(Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,)"));
    v.push(Ty::of::<(Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,)>("(Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,)"));
    v.push(Ty::of::<(Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,)>("(Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,)"));
    v.push(Ty::of::<(Two,Two,Tri,Two,)>("(Two,Two,Tri,Two,)"));
    v.push(Ty::of::<(Wide,(),Two,(),Wide,)>("(Wide,(),Two,(),Wide,)"));
    v.push(Ty::of::<(Wide,D17,)>("(Wide,D17,)"));
    v.push(Ty::of::<(Wide,Wide,)>("(Wide,Wide,)"));
    v.push(Ty::of::<([(bool,Tri,);2],((Tri,bool,),Tri,),)>("([(bool,Tri,);2],((Tri,bool,),Tri,),)"));
    v.push(Ty::of::<([Option<()>;4],Option<Result<bool,Tri>>,[Option<()>;4],)>("([Option<()>;4],Option<Result<bool,Tri>>,[Option<()>;4],)"));
    v.push(Ty::of::<([Tri;0],(Tri,),)>("([Tri;0],(Tri,),)"));
    v.push(Ty::of::<([Tri;0],Option<Never>,)>("([Tri;0],Option<Never>,)"));
    v.push(Ty::of::<([Tri;0],Result<bool,()>,)>("([Tri;0],Result<bool,()>,)"));
    v.push(Ty::of::<([Tri;3],(),)>("([Tri;3],(),)"));
    v.push(Ty::of::<([Tri;3],(Tri,),[Tri;3],)>("([Tri;3],(Tri,),[Tri;3],)"));
    v.push(Ty::of::<([Tri;3],(bool,Tri,),[Tri;3],)>("([Tri;3],(bool,Tri,),[Tri;3],)"));
    v.push(Ty::of::<([Tri;3],Never,[Tri;3],)>("([Tri;3],Never,[Tri;3],)"));
    v.push(Ty::of::<([Tri;3],Tri,[Tri;3],)>("([Tri;3],Tri,[Tri;3],)"));
    v.push(Ty::of::<([Tri;3],[Tri;3],)>("([Tri;3],[Tri;3],)"));
    v.push(Ty::of::<([bool;2],)>("([bool;2],)"));
    v.push(Ty::of::<([bool;2],Option<()>,[bool;2],)>("([bool;2],Option<()>,[bool;2],)"));
    v.push(Ty::of::<([bool;2],Option<bool>,)>("([bool;2],Option<bool>,)"));
    v.push(Ty::of::<([bool;2],Result<Tri,bool>,[bool;2],)>("([bool;2],Result<Tri,bool>,[bool;2],)"));
    v.push(Ty::of::<([bool;2],[Tri;0],[bool;2],)>("([bool;2],[Tri;0],[bool;2],)"));
    v.push(Ty::of::<(bool,(),Four,bool,(),Four,)>("(bool,(),Four,bool,(),Four,)"));
    v.push(Ty::of::<(bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,)>("(bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,)"));
    v.push(Ty::of::<(bool,(),bool,)>("(bool,(),bool,)"));
    v.push(Ty::of::<(bool,Five,)>("(bool,Five,)"));
    v.push(Ty::of::<(bool,Never,Five,)>("(bool,Never,Five,)"));
    v.push(Ty::of::<(bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,)>("(bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,)"));
    v.push(Ty::of::<(bool,Option<bool>,)>("(bool,Option<bool>,)"));
    v.push(Ty::of::<(bool,Result<Never,Tri>,)>("(bool,Result<Never,Tri>,)"));
    v.push(Ty::of::<(bool,Tri,bool,bool,bool,bool,bool,)>("(bool,Tri,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(bool,Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(bool,Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,[Tri;0],bool,)>("(bool,[Tri;0],bool,)"));
    v.push(Ty::of::<(bool,bool,bool,Tri,bool,)>("(bool,bool,bool,Tri,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,Never,bool,bool,bool,bool,bool,)>("(bool,bool,bool,bool,bool,Never,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,Tri,bool,bool,bool,bool,bool,bool,bool,)>("(bool,bool,bool,bool,bool,bool,bool,Tri,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,)>("(bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,Tri,)>("(bool,bool,bool,bool,bool,bool,bool,bool,Tri,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,Tri,bool,)>("(bool,bool,bool,bool,bool,bool,bool,bool,Tri,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,bool,bool,bool,bool,bool,bool,bool,bool,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Never,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Never,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,bool,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Never,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Never,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,bool,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,bool,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,)"));
    v.push(Ty::of::<Five>("Five"));
    v.push(Ty::of::<Option<(Option<bool>,[Tri;2],)>>("Option<(Option<bool>,[Tri;2],)>"));
    v.push(Ty::of::<Option<(Result<Never,Never>,bool,)>>("Option<(Result<Never,Never>,bool,)>"));
    v.push(Ty::of::<Option<Five>>("Option<Five>"));
    v.push(Ty::of::<Option<Option<Five>>>("Option<Option<Five>>"));
    v.push(Ty::of::<Option<Option<Option<Five>>>>("Option<Option<Option<Five>>>"));
    v.push(Ty::of::<Option<Option<Option<Wide>>>>("Option<Option<Option<Wide>>>"));
    v.push(Ty::of::<Option<Result<((Tri,bool,),Tri,),Option<Option<Result<bool,Tri>>>>>>("Option<Result<((Tri,bool,),Tri,),Option<Option<Result<bool,Tri>>>>>"));
    v.push(Ty::of::<Option<Result<(Option<bool>,[Tri;2],),Option<((Tri,bool,),Tri,)>>>>("Option<Result<(Option<bool>,[Tri;2],),Option<((Tri,bool,),Tri,)>>>"));
    v.push(Ty::of::<Option<Result<(Option<bool>,[Tri;2],),Option<Option<Result<bool,Tri>>>>>>("Option<Result<(Option<bool>,[Tri;2],),Option<Option<Result<bool,Tri>>>>>"));
    v.push(Ty::of::<Option<Result<(Result<Never,Never>,bool,),Option<Option<Result<bool,Tri>>>>>>("Option<Result<(Result<Never,Never>,bool,),Option<Option<Result<bool,Tri>>>>>"));
    v.push(Ty::of::<Option<Result<Option<[Never;0]>,Option<Result<(Tri,bool,),[bool;3]>>>>>("Option<Result<Option<[Never;0]>,Option<Result<(Tri,bool,),[bool;3]>>>>"));
    v.push(Ty::of::<Option<Result<Option<[Never;0]>,Option<[(bool,Tri,);2]>>>>("Option<Result<Option<[Never;0]>,Option<[(bool,Tri,);2]>>>"));
    v.push(Ty::of::<Option<Result<Option<[Never;0]>,Option<[Option<()>;4]>>>>("Option<Result<Option<[Never;0]>,Option<[Option<()>;4]>>>"));
    v.push(Ty::of::<Option<Result<Option<[Never;1]>,Option<Result<Option<Never>,Option<bool>>>>>>("Option<Result<Option<[Never;1]>,Option<Result<Option<Never>,Option<bool>>>>>"));
    v.push(Ty::of::<Option<Result<Result<(Tri,bool,),[bool;3]>,Option<[(bool,Tri,);2]>>>>("Option<Result<Result<(Tri,bool,),[bool;3]>,Option<[(bool,Tri,);2]>>>"));
    v.push(Ty::of::<Option<Result<Result<Option<Never>,Option<bool>>,Option<(Result<Never,Never>,bool,)>>>>("Option<Result<Result<Option<Never>,Option<bool>>,Option<(Result<Never,Never>,bool,)>>>"));
    v.push(Ty::of::<Option<Result<[(bool,Tri,);2],Option<Option<Result<bool,Tri>>>>>>("Option<Result<[(bool,Tri,);2],Option<Option<Result<bool,Tri>>>>>"));
    v.push(Ty::of::<Option<Result<[Option<()>;4],Option<(Option<bool>,[Tri;2],)>>>>("Option<Result<[Option<()>;4],Option<(Option<bool>,[Tri;2],)>>>"));
    v.push(Ty::of::<Option<Result<bool,()>>>("Option<Result<bool,()>>"));
    v.push(Ty::of::<Option<Tri>>("Option<Tri>"));
    v.push(Ty::of::<Result<(),One>>("Result<(),One>"));
    v.push(Ty::of::<Result<(),Result<Never,Tri>>>("Result<(),Result<Never,Tri>>"));
    v.push(Ty::of::<Result<(),[Tri;0]>>("Result<(),[Tri;0]>"));
    v.push(Ty::of::<Result<(Option<bool>,[Tri;2],),((Tri,bool,),Tri,)>>("Result<(Option<bool>,[Tri;2],),((Tri,bool,),Tri,)>"));
    v.push(Ty::of::<Result<(Option<bool>,[Tri;2],),(Option<bool>,[Tri;2],)>>("Result<(Option<bool>,[Tri;2],),(Option<bool>,[Tri;2],)>"));
    v.push(Ty::of::<Result<(Result<Never,Never>,bool,),(Option<bool>,[Tri;2],)>>("Result<(Result<Never,Never>,bool,),(Option<bool>,[Tri;2],)>"));
    v.push(Ty::of::<Result<(Result<Never,Never>,bool,),[Option<()>;4]>>("Result<(Result<Never,Never>,bool,),[Option<()>;4]>"));
    v.push(Ty::of::<Result<(Tri,),Option<bool>>>("Result<(Tri,),Option<bool>>"));
    v.push(Ty::of::<Result<(Tri,),Result<Tri,bool>>>("Result<(Tri,),Result<Tri,bool>>"));
    v.push(Ty::of::<Result<(bool,Tri,),Tri>>("Result<(bool,Tri,),Tri>"));
    v.push(Ty::of::<Result<D17,H62>>("Result<D17,H62>"));
    v.push(Ty::of::<Result<Five,()>>("Result<Five,()>"));
    v.push(Ty::of::<Result<Five,Tri>>("Result<Five,Tri>"));
    v.push(Ty::of::<Result<Four,H62>>("Result<Four,H62>"));
    v.push(Ty::of::<Result<H62,()>>("Result<H62,()>"));
    v.push(Ty::of::<Result<H62,Tri>>("Result<H62,Tri>"));
    v.push(Ty::of::<Result<H63,H62>>("Result<H63,H62>"));
    v.push(Ty::of::<Result<Never,D17>>("Result<Never,D17>"));
    v.push(Ty::of::<Result<Never,Option<Never>>>("Result<Never,Option<Never>>"));
    v.push(Ty::of::<Result<Never,Result<Tri,bool>>>("Result<Never,Result<Tri,bool>>"));
    v.push(Ty::of::<Result<Never,[bool;2]>>("Result<Never,[bool;2]>"));
    v.push(Ty::of::<Result<One,Never>>("Result<One,Never>"));
    v.push(Ty::of::<Result<Option<()>,Option<()>>>("Result<Option<()>,Option<()>>"));
    v.push(Ty::of::<Result<Option<()>,bool>>("Result<Option<()>,bool>"));
    v.push(Ty::of::<Result<Option<Never>,Result<Tri,bool>>>("Result<Option<Never>,Result<Tri,bool>>"));
    v.push(Ty::of::<Result<Option<Never>,[Tri;0]>>("Result<Option<Never>,[Tri;0]>"));
    v.push(Ty::of::<Result<Option<Result<bool,Tri>>,Option<Result<bool,Tri>>>>("Result<Option<Result<bool,Tri>>,Option<Result<bool,Tri>>>"));
    v.push(Ty::of::<Result<Option<Tri>,Option<Tri>>>("Result<Option<Tri>,Option<Tri>>"));
    v.push(Ty::of::<Result<Option<Tri>,Result<bool,()>>>("Result<Option<Tri>,Result<bool,()>>"));
    v.push(Ty::of::<Result<Option<[Never;0]>,(Result<Never,Never>,bool,)>>("Result<Option<[Never;0]>,(Result<Never,Never>,bool,)>"));
    v.push(Ty::of::<Result<Option<[Never;0]>,Option<[Never;1]>>>("Result<Option<[Never;0]>,Option<[Never;1]>>"));
    v.push(Ty::of::<Result<Option<[Never;1]>,((Tri,bool,),Tri,)>>("Result<Option<[Never;1]>,((Tri,bool,),Tri,)>"));
    v.push(Ty::of::<Result<Option<bool>,Option<Never>>>("Result<Option<bool>,Option<Never>>"));
    v.push(Ty::of::<Result<Option<bool>,Result<bool,()>>>("Result<Option<bool>,Result<bool,()>>"));
    v.push(Ty::of::<Result<Result<(Tri,bool,),[bool;3]>,((Tri,bool,),Tri,)>>("Result<Result<(Tri,bool,),[bool;3]>,((Tri,bool,),Tri,)>"));
    v.push(Ty::of::<Result<Result<Never,Tri>,(Tri,)>>("Result<Result<Never,Tri>,(Tri,)>"));
    v.push(Ty::of::<Result<Result<Never,Tri>,[Tri;0]>>("Result<Result<Never,Tri>,[Tri;0]>"));
    v.push(Ty::of::<Result<Result<Option<Never>,Option<bool>>,(Option<bool>,[Tri;2],)>>("Result<Result<Option<Never>,Option<bool>>,(Option<bool>,[Tri;2],)>"));
    v.push(Ty::of::<Result<Result<Tri,bool>,Never>>("Result<Result<Tri,bool>,Never>"));
    v.push(Ty::of::<Result<Result<Tri,bool>,Result<Tri,bool>>>("Result<Result<Tri,bool>,Result<Tri,bool>>"));
    v.push(Ty::of::<Result<Result<Tri,bool>,[bool;2]>>("Result<Result<Tri,bool>,[bool;2]>"));
    v.push(Ty::of::<Result<Result<bool,()>,Tri>>("Result<Result<bool,()>,Tri>"));
    v.push(Ty::of::<Result<Tri,()>>("Result<Tri,()>"));
    v.push(Ty::of::<Result<Tri,Option<()>>>("Result<Tri,Option<()>>"));
    v.push(Ty::of::<Result<Tri,Result<bool,()>>>("Result<Tri,Result<bool,()>>"));
    v.push(Ty::of::<Result<Tri,[Tri;3]>>("Result<Tri,[Tri;3]>"));
    v.push(Ty::of::<Result<Two,H63>>("Result<Two,H63>"));
    v.push(Ty::of::<Result<Wide,D17>>("Result<Wide,D17>"));
    v.push(Ty::of::<Result<Wide,Two>>("Result<Wide,Two>"));
    v.push(Ty::of::<Result<[(bool,Tri,);2],Option<[Never;1]>>>("Result<[(bool,Tri,);2],Option<[Never;1]>>"));
    v.push(Ty::of::<Result<[Tri;0],Option<()>>>("Result<[Tri;0],Option<()>>"));
    v.push(Ty::of::<Result<[Tri;0],bool>>("Result<[Tri;0],bool>"));
    v.push(Ty::of::<Result<[Tri;3],Result<Never,Tri>>>("Result<[Tri;3],Result<Never,Tri>>"));
    v.push(Ty::of::<Result<[Tri;3],[Tri;0]>>("Result<[Tri;3],[Tri;0]>"));
    v.push(Ty::of::<Result<[bool;2],Option<Tri>>>("Result<[bool;2],Option<Tri>>"));
    v.push(Ty::of::<Result<bool,D17>>("Result<bool,D17>"));
    v.push(Ty::of::<Result<bool,Option<Never>>>("Result<bool,Option<Never>>"));
    v.push(Ty::of::<Result<bool,Result<Never,Tri>>>("Result<bool,Result<Never,Tri>>"));
    v.push(Ty::of::<Result<bool,[bool;2]>>("Result<bool,[bool;2]>"));
    v.push(Ty::of::<Tri>("Tri"));
    v.push(Ty::of::<[(((Tri,bool,),Tri,),Option<[Never;0]>,);2]>("[(((Tri,bool,),Tri,),Option<[Never;0]>,);2]"));
    v.push(Ty::of::<[((Option<bool>,[Tri;2],),(Result<Never,Never>,bool,),);2]>("[((Option<bool>,[Tri;2],),(Result<Never,Never>,bool,),);2]"));
    v.push(Ty::of::<[((Option<bool>,[Tri;2],),Option<Result<bool,Tri>>,);2]>("[((Option<bool>,[Tri;2],),Option<Result<bool,Tri>>,);2]"));
    v.push(Ty::of::<[((Option<bool>,[Tri;2],),Option<[Never;0]>,);2]>("[((Option<bool>,[Tri;2],),Option<[Never;0]>,);2]"));
    v.push(Ty::of::<[();14]>("[();14]"));
    v.push(Ty::of::<[();21]>("[();21]"));
    v.push(Ty::of::<[();29]>("[();29]"));
    v.push(Ty::of::<[();6]>("[();6]"));
    v.push(Ty::of::<[(Option<Result<bool,Tri>>,Option<[Never;0]>,);2]>("[(Option<Result<bool,Tri>>,Option<[Never;0]>,);2]"));
    v.push(Ty::of::<[(Option<Result<bool,Tri>>,Result<(Tri,bool,),[bool;3]>,);2]>("[(Option<Result<bool,Tri>>,Result<(Tri,bool,),[bool;3]>,);2]"));
    v.push(Ty::of::<[(Option<[Never;0]>,Result<(Tri,bool,),[bool;3]>,);2]>("[(Option<[Never;0]>,Result<(Tri,bool,),[bool;3]>,);2]"));
    v.push(Ty::of::<[(Option<[Never;0]>,[(bool,Tri,);2],);2]>("[(Option<[Never;0]>,[(bool,Tri,);2],);2]"));
    v.push(Ty::of::<[(Option<[Never;1]>,[Option<()>;4],);2]>("[(Option<[Never;1]>,[Option<()>;4],);2]"));
    v.push(Ty::of::<[(Result<Never,Never>,bool,);3]>("[(Result<Never,Never>,bool,);3]"));
    v.push(Ty::of::<[([(bool,Tri,);2],((Tri,bool,),Tri,),);2]>("[([(bool,Tri,);2],((Tri,bool,),Tri,),);2]"));
    v.push(Ty::of::<[([(bool,Tri,);2],(Result<Never,Never>,bool,),);2]>("[([(bool,Tri,);2],(Result<Never,Never>,bool,),);2]"));
    v.push(Ty::of::<[([(bool,Tri,);2],Option<Result<bool,Tri>>,);2]>("[([(bool,Tri,);2],Option<Result<bool,Tri>>,);2]"));
    v.push(Ty::of::<[([(bool,Tri,);2],[(bool,Tri,);2],);2]>("[([(bool,Tri,);2],[(bool,Tri,);2],);2]"));
    v.push(Ty::of::<[([Option<()>;4],(Option<bool>,[Tri;2],),);2]>("[([Option<()>;4],(Option<bool>,[Tri;2],),);2]"));
    v.push(Ty::of::<[(bool,Tri,);2]>("[(bool,Tri,);2]"));
    v.push(Ty::of::<[D17;13]>("[D17;13]"));
    v.push(Ty::of::<[D17;6]>("[D17;6]"));
    v.push(Ty::of::<[Five;13]>("[Five;13]"));
    v.push(Ty::of::<[Five;20]>("[Five;20]"));
    v.push(Ty::of::<[Five;2]>("[Five;2]"));
    v.push(Ty::of::<[Four;0]>("[Four;0]"));
    v.push(Ty::of::<[Four;17]>("[Four;17]"));
    v.push(Ty::of::<[Four;24]>("[Four;24]"));
    v.push(Ty::of::<[Four;31]>("[Four;31]"));
    v.push(Ty::of::<[H62;0]>("[H62;0]"));
    v.push(Ty::of::<[Never;13]>("[Never;13]"));
    v.push(Ty::of::<[Never;20]>("[Never;20]"));
    v.push(Ty::of::<[Never;28]>("[Never;28]"));
    v.push(Ty::of::<[Never;5]>("[Never;5]"));
    v.push(Ty::of::<[One;12]>("[One;12]"));
    v.push(Ty::of::<[One;1]>("[One;1]"));
    v.push(Ty::of::<[One;27]>("[One;27]"));
    v.push(Ty::of::<[One;4]>("[One;4]"));
    v.push(Ty::of::<[Option<()>;2]>("[Option<()>;2]"));
    v.push(Ty::of::<[Option<Tri>;2]>("[Option<Tri>;2]"));
    v.push(Ty::of::<[Option<bool>;2]>("[Option<bool>;2]"));
    v.push(Ty::of::<[Result<Never,Tri>;0]>("[Result<Never,Tri>;0]"));
    v.push(Ty::of::<[Result<Tri,bool>;2]>("[Result<Tri,bool>;2]"));
    v.push(Ty::of::<[Tri;15]>("[Tri;15]"));
    v.push(Ty::of::<[Tri;22]>("[Tri;22]"));
    v.push(Ty::of::<[Tri;2]>("[Tri;2]"));
    v.push(Ty::of::<[Tri;7]>("[Tri;7]"));
    v.push(Ty::of::<[Two;14]>("[Two;14]"));
    v.push(Ty::of::<[Two;21]>("[Two;21]"));
    v.push(Ty::of::<[Two;29]>("[Two;29]"));
    v.push(Ty::of::<[Two;6]>("[Two;6]"));
    v.push(Ty::of::<[Wide;13]>("[Wide;13]"));
    v.push(Ty::of::<[Wide;20]>("[Wide;20]"));
    v.push(Ty::of::<[Wide;28]>("[Wide;28]"));
    v.push(Ty::of::<[Wide;5]>("[Wide;5]"));
    v.push(Ty::of::<[[Tri;0];1]>("[[Tri;0];1]"));
    v.push(Ty::of::<[[bool;2];1]>("[[bool;2];1]"));
    v.push(Ty::of::<[bool;14]>("[bool;14]"));
    v.push(Ty::of::<[bool;21]>("[bool;21]"));
    v.push(Ty::of::<[bool;29]>("[bool;29]"));
    v.push(Ty::of::<[bool;6]>("[bool;6]"));
}
