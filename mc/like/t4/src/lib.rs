// generated by tools/gen_like.py
use likesut::*;
pub fn all(v: &mut Vec<Ty>) {
    v.push(Ty::of::<(((Tri,bool,),Tri,),((Tri,bool,),Tri,),)>("(((Tri,bool,),Tri,),((Tri,bool,),Tri,),)"));
    v.push(Ty::of::<(((Tri,bool,),Tri,),Result<(Tri,bool,),[bool;3]>,((Tri,bool,),Tri,),)>("(((Tri,bool,),Tri,),Result<(Tri,bool,),[bool;3]>,((Tri,bool,),Tri,),)"));
    v.push(Ty::of::<(((Tri,bool,),Tri,),Result<(Tri,bool,),[bool;3]>,)>("(((Tri,bool,),Tri,),Result<(Tri,bool,),[bool;3]>,)"));
    v.push(Ty::of::<((),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),)>("((),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),)"));
    v.push(Ty::of::<((),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),)>("((),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),)"));
    v.push(Ty::of::<((),(),(),(),(),(),(),(),(),(),(),(),(),)>("((),(),(),(),(),(),(),(),(),(),(),(),(),)"));
    v.push(Ty::of::<((),(),(),(),(),(),)>("((),(),(),(),(),(),)"));
    v.push(Ty::of::<((),(),(),Tri,)>("((),(),(),Tri,)"));
    v.push(Ty::of::<((),(),Tri,)>("((),(),Tri,)"));
    v.push(Ty::of::<((),(Tri,),(),)>("((),(Tri,),(),)"));
    v.push(Ty::of::<((),Four,bool,(),Four,)>("((),Four,bool,(),Four,)"));
    v.push(Ty::of::<((),H63,)>("((),H63,)"));
    v.push(Ty::of::<((),Never,(),)>("((),Never,(),)"));
    v.push(Ty::of::<((),Option<bool>,(),)>("((),Option<bool>,(),)"));
    v.push(Ty::of::<((),Tri,Tri,(),)>("((),Tri,Tri,(),)"));
    v.push(Ty::of::<((),Tri,bool,)>("((),Tri,bool,)"));
    v.push(Ty::of::<((),Two,(),Two,)>("((),Two,(),Two,)"));
    v.push(Ty::of::<((),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),)>("((),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),)"));
    v.push(Ty::of::<((),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,)>("((),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,)"));
    v.push(Ty::of::<((),Two,)>("((),Two,)"));
    v.push(Ty::of::<((),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),)>("((),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),)"));
    v.push(Ty::of::<((),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),)>("((),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),)"));
    v.push(Ty::of::<((),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,)>("((),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,)"));
    v.push(Ty::of::<((),bool,bool,)>("((),bool,bool,)"));
    v.push(Ty::of::<((Option<bool>,[Tri;2],),(Result<Never,Never>,bool,),)>("((Option<bool>,[Tri;2],),(Result<Never,Never>,bool,),)"));
    v.push(Ty::of::<((Option<bool>,[Tri;2],),Option<Result<bool,Tri>>,(Option<bool>,[Tri;2],),)>("((Option<bool>,[Tri;2],),Option<Result<bool,Tri>>,(Option<bool>,[Tri;2],),)"));
    v.push(Ty::of::<((Option<bool>,[Tri;2],),Option<[Never;1]>,)>("((Option<bool>,[Tri;2],),Option<[Never;1]>,)"));
    v.push(Ty::of::<((Result<Never,Never>,bool,),(Option<bool>,[Tri;2],),(Result<Never,Never>,bool,),)>("((Result<Never,Never>,bool,),(Option<bool>,[Tri;2],),(Result<Never,Never>,bool,),)"));
    v.push(Ty::of::<((Result<Never,Never>,bool,),Option<Result<bool,Tri>>,)>("((Result<Never,Never>,bool,),Option<Result<bool,Tri>>,)"));
    v.push(Ty::of::<((Result<Never,Never>,bool,),Option<[Never;1]>,)>("((Result<Never,Never>,bool,),Option<[Never;1]>,)"));
    v.push(Ty::of::<((Result<Never,Never>,bool,),[Option<()>;4],(Result<Never,Never>,bool,),)>("((Result<Never,Never>,bool,),[Option<()>;4],(Result<Never,Never>,bool,),)"));
    v.push(Ty::of::<((Tri,),Option<bool>,(Tri,),)>("((Tri,),Option<bool>,(Tri,),)"));
    v.push(Ty::of::<((Tri,),Tri,)>("((Tri,),Tri,)"));
    v.push(Ty::of::<((bool,Tri,),(),(bool,Tri,),)>("((bool,Tri,),(),(bool,Tri,),)"));
    v.push(Ty::of::<((bool,Tri,),Never,)>("((bool,Tri,),Never,)"));
    v.push(Ty::of::<((bool,Tri,),Result<Tri,bool>,)>("((bool,Tri,),Result<Tri,bool>,)"));
    v.push(Ty::of::<((bool,Tri,),[Tri;3],(bool,Tri,),)>("((bool,Tri,),[Tri;3],(bool,Tri,),)"));
    v.push(Ty::of::<((bool,Tri,),[bool;2],)>("((bool,Tri,),[bool;2],)"));
    v.push(Ty::of::<(D17,)>("(D17,)"));
    v.push(Ty::of::<(D17,D17,)>("(D17,D17,)"));
    v.push(Ty::of::<(D17,bool,)>("(D17,bool,)"));
    v.push(Ty::of::<(Five,(),Never,)>("(Five,(),Never,)"));
    v.push(Ty::of::<(Five,(),One,Five,(),One,Five,(),)>("(Five,(),One,Five,(),One,Five,(),)"));
    v.push(Ty::of::<(Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,)>("(Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,)"));
    v.push(Ty::of::<(Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,)>("(Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,)"));
    v.push(Ty::of::<(Five,Never,(),)>("(Five,Never,(),)"));
    v.push(Ty::of::<(Five,Tri,Tri,)>("(Five,Tri,Tri,)"));
    v.push(Ty::of::<(Five,Two,)>("(Five,Two,)"));
    v.push(Ty::of::<(Four,One,)>("(Four,One,)"));
    v.push(Ty::of::<(Four,bool,(),Four,bool,(),)>("(Four,bool,(),Four,bool,(),)"));
    v.push(Ty::of::<(Four,bool,(),Four,bool,(),Four,bool,(),Four,)>("(Four,bool,(),Four,bool,(),Four,bool,(),Four,)"));
    v.push(Ty::of::<(Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,)>("(Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,)"));
    v.push(Ty::of::<(Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,)>("(Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,)"));
    v.push(Ty::of::<(Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),)>("(Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),)"));
    v.push(Ty::of::<(H62,Tri,)>("(H62,Tri,)"));
    v.push(Ty::of::<(Never,(),Five,)>("(Never,(),Five,)"));
    v.push(Ty::of::<(Never,D17,)>("(Never,D17,)"));
    v.push(Ty::of::<(Never,Five,Tri,)>("(Never,Five,Tri,)"));
    v.push(Ty::of::<(Never,Option<Never>,)>("(Never,Option<Never>,)"));
    v.push(Ty::of::<(Never,Option<Never>,Never,)>("(Never,Option<Never>,Never,)"));
    v.push(Ty::of::<(Never,Tri,Never,)>("(Never,Tri,Never,)"));
    v.push(Ty::of::<(Never,[bool;2],)>("(Never,[bool;2],)"));
    v.push(Ty::of::<(Never,bool,Never,)>("(Never,bool,Never,)"));
    v.push(Ty::of::<(One,Never,)>("(One,Never,)"));
    v.push(Ty::of::<(One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,)>("(One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,)"));
    v.push(Ty::of::<(Option<()>,(bool,Tri,),)>("(Option<()>,(bool,Tri,),)"));
    v.push(Ty::of::<(Option<()>,Option<()>,)>("(Option<()>,Option<()>,)"));
    v.push(Ty::of::<(Option<()>,Option<Tri>,Option<()>,)>("(Option<()>,Option<Tri>,Option<()>,)"));
    v.push(Ty::of::<(Option<()>,[bool;2],Option<()>,)>("(Option<()>,[bool;2],Option<()>,)"));
    v.push(Ty::of::<(Option<()>,bool,)>("(Option<()>,bool,)"));
    v.push(Ty::of::<(Option<Never>,(bool,Tri,),Option<Never>,)>("(Option<Never>,(bool,Tri,),Option<Never>,)"));
    v.push(Ty::of::<(Option<Never>,)>("(Option<Never>,)"));
    v.push(Ty::of::<(Option<Never>,Option<bool>,Option<Never>,)>("(Option<Never>,Option<bool>,Option<Never>,)"));
    v.push(Ty::of::<(Option<Never>,Result<bool,()>,Option<Never>,)>("(Option<Never>,Result<bool,()>,Option<Never>,)"));
    v.push(Ty::of::<(Option<Never>,[Tri;0],)>("(Option<Never>,[Tri;0],)"));
    v.push(Ty::of::<(Option<Never>,bool,Option<Never>,)>("(Option<Never>,bool,Option<Never>,)"));
    v.push(Ty::of::<(Option<Tri>,Option<Never>,)>("(Option<Tri>,Option<Never>,)"));
    v.push(Ty::of::<(Option<Tri>,Option<Never>,Option<Tri>,)>("(Option<Tri>,Option<Never>,Option<Tri>,)"));
    v.push(Ty::of::<(Option<Tri>,[Tri;3],Option<Tri>,)>("(Option<Tri>,[Tri;3],Option<Tri>,)"));
    v.push(Ty::of::<(Option<[Never;0]>,((Tri,bool,),Tri,),Option<[Never;0]>,)>("(Option<[Never;0]>,((Tri,bool,),Tri,),Option<[Never;0]>,)"));
    v.push(Ty::of::<(Option<[Never;0]>,(Option<bool>,[Tri;2],),)>("(Option<[Never;0]>,(Option<bool>,[Tri;2],),)"));
    v.push(Ty::of::<(Option<[Never;0]>,(Result<Never,Never>,bool,),)>("(Option<[Never;0]>,(Result<Never,Never>,bool,),)"));
    v.push(Ty::of::<(Option<[Never;0]>,(Result<Never,Never>,bool,),Option<[Never;0]>,)>("(Option<[Never;0]>,(Result<Never,Never>,bool,),Option<[Never;0]>,)"));
    v.push(Ty::of::<(Option<[Never;0]>,Option<[Never;0]>,)>("(Option<[Never;0]>,Option<[Never;0]>,)"));
    v.push(Ty::of::<(Option<[Never;1]>,Option<Result<bool,Tri>>,)>("(Option<[Never;1]>,Option<Result<bool,Tri>>,)"));
    v.push(Ty::of::<(Option<bool>,(Tri,),Option<bool>,)>("(Option<bool>,(Tri,),Option<bool>,)"));
    v.push(Ty::of::<(Option<bool>,Option<()>,)>("(Option<bool>,Option<()>,)"));
    v.push(Ty::of::<(Option<bool>,Option<()>,Option<bool>,)>("(Option<bool>,Option<()>,Option<bool>,)"));
    v.push(Ty::of::<(Option<bool>,[Tri;0],Option<bool>,)>("(Option<bool>,[Tri;0],Option<bool>,)"));
    v.push(Ty::of::<(Option<bool>,bool,)>("(Option<bool>,bool,)"));
    v.push(Ty::of::<(Result<(Tri,bool,),[bool;3]>,Option<[Never;0]>,)>("(Result<(Tri,bool,),[bool;3]>,Option<[Never;0]>,)"));
    v.push(Ty::of::<(Result<(Tri,bool,),[bool;3]>,[Option<()>;4],Result<(Tri,bool,),[bool;3]>,)>("(Result<(Tri,bool,),[bool;3]>,[Option<()>;4],Result<(Tri,bool,),[bool;3]>,)"));
    v.push(Ty::of::<(Result<Never,Tri>,Option<Tri>,)>("(Result<Never,Tri>,Option<Tri>,)"));
    v.push(Ty::of::<(Result<Never,Tri>,Option<Tri>,Result<Never,Tri>,)>("(Result<Never,Tri>,Option<Tri>,Result<Never,Tri>,)"));
    v.push(Ty::of::<(Result<Never,Tri>,Result<Never,Tri>,Result<Never,Tri>,)>("(Result<Never,Tri>,Result<Never,Tri>,Result<Never,Tri>,)"));
    v.push(Ty::of::<(Result<Never,Tri>,Result<Tri,bool>,)>("(Result<Never,Tri>,Result<Tri,bool>,)"));
    v.push(Ty::of::<(Result<Option<Never>,Option<bool>>,Option<[Never;0]>,Result<Option<Never>,Option<bool>>,)>("(Result<Option<Never>,Option<bool>>,Option<[Never;0]>,Result<Option<Never>,Option<bool>>,)"));
    v.push(Ty::of::<(Result<Option<Never>,Option<bool>>,Option<[Never;1]>,)>("(Result<Option<Never>,Option<bool>>,Option<[Never;1]>,)"));
    v.push(Ty::of::<(Result<Tri,bool>,(bool,Tri,),Result<Tri,bool>,)>("(Result<Tri,bool>,(bool,Tri,),Result<Tri,bool>,)"));
    v.push(Ty::of::<(Result<Tri,bool>,Option<Never>,Result<Tri,bool>,)>("(Result<Tri,bool>,Option<Never>,Result<Tri,bool>,)"));
    v.push(Ty::of::<(Result<Tri,bool>,Result<Never,Tri>,Result<Tri,bool>,)>("(Result<Tri,bool>,Result<Never,Tri>,Result<Tri,bool>,)"));
    v.push(Ty::of::<(Result<Tri,bool>,Tri,)>("(Result<Tri,bool>,Tri,)"));
    v.push(Ty::of::<(Result<bool,()>,(),Result<bool,()>,)>("(Result<bool,()>,(),Result<bool,()>,)"));
    v.push(Ty::of::<(Result<bool,()>,(Tri,),)>("(Result<bool,()>,(Tri,),)"));
    v.push(Ty::of::<(Result<bool,()>,Option<Never>,)>("(Result<bool,()>,Option<Never>,)"));
    v.push(Ty::of::<(Result<bool,()>,[Tri;0],Result<bool,()>,)>("(Result<bool,()>,[Tri;0],Result<bool,()>,)"));
    v.push(Ty::of::<(Tri,(),(),)>("(Tri,(),(),)"));
    v.push(Ty::of::<(Tri,(),Tri,Tri,)>("(Tri,(),Tri,Tri,)"));
    v.push(Ty::of::<(Tri,(),bool,One,Two,Tri,(),bool,)>("(Tri,(),bool,One,Two,Tri,(),bool,)"));
    v.push(Ty::of::<(Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,)>("(Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,)"));
    v.push(Ty::of::<(Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,)>("(Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,)"));
    v.push(Ty::of::<(Tri,Five,Never,)>("(Tri,Five,Never,)"));
    v.push(Ty::of::<(Tri,Four,)>("(Tri,Four,)"));
    v.push(Ty::of::<(Tri,Option<()>,Tri,)>("(Tri,Option<()>,Tri,)"));
    v.push(Ty::of::<(Tri,Result<Tri,bool>,Tri,)>("(Tri,Result<Tri,bool>,Tri,)"));
    v.push(Ty::of::<(Tri,Tri,)>("(Tri,Tri,)"));
    v.push(Ty::of::<(Tri,Tri,Five,)>("(Tri,Tri,Five,)"));
    v.push(Ty::of::<(Tri,Tri,Two,(),)>("(Tri,Tri,Two,(),)"));
    v.push(Ty::of::<(Tri,Two,Tri,Two,)>("(Tri,Two,Tri,Two,)"));
    v.push(Ty::of::<(Tri,Two,Tri,Two,Tri,Two,)>("(Tri,Two,Tri,Two,Tri,Two,)"));
    v.push(Ty::of::<(Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,)>("(Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,)"));
    v.push(Ty::of::<(Tri,bool,Five,)>("(Tri,bool,Five,)"));
    v.push(Ty::of::<(Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(Two,(),Tri,Tri,)>("(Two,(),Tri,Tri,)"));
    v.push(Ty::of::<(Two,(),Wide,(),Two,)>("(Two,(),Wide,(),Two,)"));
    v.push(Ty::of::<(Two,D17,)>("(Two,D17,)"));
    v.push(Ty::of::<(Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),)>("(Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),)"));
    v.push(Ty::of::<(Two,Tri,Tri,(),)>("(Two,Tri,Tri,(),)"));
    v.push(Ty::of::<(Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,)>("(Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,)"));
    v.push(Ty::of::<(Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,)>("(Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,)"));
    v.push(Ty::of::<(Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,)>("(Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,)"));
    v.push(Ty::of::<(Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,)>("(Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,)"));
    v.push(Ty::of::<(Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,)>("(Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,)"));
    v.push(Ty::of::<(Two,Two,(),Two,)>("(Two,Two,(),Two,)"));
    v.push(Ty::of::<(Two,Wide,)>("(Two,Wide,)"));
    v.push(Ty::of::<(Wide,One,)>("(Wide,One,)"));
    v.push(Ty::of::<([(bool,Tri,);2],Option<[Never;1]>,)>("([(bool,Tri,);2],Option<[Never;1]>,)"));
    v.push(Ty::of::<([(bool,Tri,);2],Result<(Tri,bool,),[bool;3]>,)>("([(bool,Tri,);2],Result<(Tri,bool,),[bool;3]>,)"));
    v.push(Ty::of::<([Option<()>;4],((Tri,bool,),Tri,),)>("([Option<()>;4],((Tri,bool,),Tri,),)"));
    v.push(Ty::of::<([Option<()>;4],)>("([Option<()>;4],)"));
    v.push(Ty::of::<([Option<()>;4],Result<(Tri,bool,),[bool;3]>,)>("([Option<()>;4],Result<(Tri,bool,),[bool;3]>,)"));
    v.push(Ty::of::<([Option<()>;4],Result<Option<Never>,Option<bool>>,)>("([Option<()>;4],Result<Option<Never>,Option<bool>>,)"));
    v.push(Ty::of::<([Tri;0],(),)>("([Tri;0],(),)"));
    v.push(Ty::of::<([Tri;0],Option<bool>,[Tri;0],)>("([Tri;0],Option<bool>,[Tri;0],)"));
    v.push(Ty::of::<([Tri;0],Result<Never,Tri>,[Tri;0],)>("([Tri;0],Result<Never,Tri>,[Tri;0],)"));
    v.push(Ty::of::<([Tri;0],[Tri;3],)>("([Tri;0],[Tri;3],)"));
    v.push(Ty::of::<([Tri;0],bool,[Tri;0],)>("([Tri;0],bool,[Tri;0],)"));
    v.push(Ty::of::<([Tri;3],Option<bool>,)>("([Tri;3],Option<bool>,)"));
    v.push(Ty::of::<([Tri;3],Result<Never,Tri>,)>("([Tri;3],Result<Never,Tri>,)"));
    v.push(Ty::of::<([bool;2],(),[bool;2],)>("([bool;2],(),[bool;2],)"));
    v.push(Ty::of::<([bool;2],(Tri,),[bool;2],)>("([bool;2],(Tri,),[bool;2],)"));
    v.push(Ty::of::<([bool;2],Option<()>,)>("([bool;2],Option<()>,)"));
    v.push(Ty::of::<([bool;2],Result<Tri,bool>,)>("([bool;2],Result<Tri,bool>,)"));
    v.push(Ty::of::<([bool;2],bool,)>("([bool;2],bool,)"));
    v.push(Ty::of::<(bool,(),Five,)>("(bool,(),Five,)"));
    v.push(Ty::of::<(bool,Five,Tri,)>("(bool,Five,Tri,)"));
    v.push(Ty::of::<(bool,Option<()>,)>("(bool,Option<()>,)"));
    v.push(Ty::of::<(bool,Option<Never>,bool,)>("(bool,Option<Never>,bool,)"));
    v.push(Ty::of::<(bool,Result<Tri,bool>,bool,)>("(bool,Result<Tri,bool>,bool,)"));
    v.push(Ty::of::<(bool,Tri,Never,)>("(bool,Tri,Never,)"));
    v.push(Ty::of::<(bool,Tri,bool,bool,bool,)>("(bool,Tri,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,Tri,bool,bool,bool,bool,bool,bool,bool,bool,)>("(bool,Tri,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(bool,Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(bool,Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(bool,Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,[Tri;3],)>("(bool,[Tri;3],)"));
    v.push(Ty::of::<(bool,bool,Never,)>("(bool,bool,Never,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,Never,bool,bool,bool,bool,)>("(bool,bool,bool,bool,Never,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,Tri,bool,)>("(bool,bool,bool,bool,Tri,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,Tri,bool,bool,bool,)>("(bool,bool,bool,bool,Tri,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,)>("(bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,Tri,bool,bool,bool,bool,bool,bool,bool,bool,)>("(bool,bool,bool,bool,bool,bool,bool,bool,Tri,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Never,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Never,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,bool,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Never,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Never,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Never,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Never,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,bool,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,bool,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,bool,)"));
    v.push(Ty::of::<One>("One"));
    v.push(Ty::of::<Option<One>>("Option<One>"));
    v.push(Ty::of::<Option<Option<One>>>("Option<Option<One>>"));
    v.push(Ty::of::<Option<Option<Option<One>>>>("Option<Option<Option<One>>>"));
    v.push(Ty::of::<Option<Option<[Never;0]>>>("Option<Option<[Never;0]>>"));
    v.push(Ty::of::<Option<Result<((Tri,bool,),Tri,),Option<[Option<()>;4]>>>>("Option<Result<((Tri,bool,),Tri,),Option<[Option<()>;4]>>>"));
    v.push(Ty::of::<Option<Result<(Result<Never,Never>,bool,),Option<[(bool,Tri,);2]>>>>("Option<Result<(Result<Never,Never>,bool,),Option<[(bool,Tri,);2]>>>"));
    v.push(Ty::of::<Option<Result<Option<Never>,Option<bool>>>>("Option<Result<Option<Never>,Option<bool>>>"));
    v.push(Ty::of::<Option<Result<Option<Result<bool,Tri>>,Option<(Option<bool>,[Tri;2],)>>>>("Option<Result<Option<Result<bool,Tri>>,Option<(Option<bool>,[Tri;2],)>>>"));
    v.push(Ty::of::<Option<Result<Option<Result<bool,Tri>>,Option<Option<Result<bool,Tri>>>>>>("Option<Result<Option<Result<bool,Tri>>,Option<Option<Result<bool,Tri>>>>>"));
    v.push(Ty::of::<Option<Result<Option<[Never;0]>,Option<Option<Result<bool,Tri>>>>>>("Option<Result<Option<[Never;0]>,Option<Option<Result<bool,Tri>>>>>"));
    v.push(Ty::of::<Option<Result<Option<[Never;1]>,Option<((Tri,bool,),Tri,)>>>>("Option<Result<Option<[Never;1]>,Option<((Tri,bool,),Tri,)>>>"));
    v.push(Ty::of::<Option<Result<Result<(Tri,bool,),[bool;3]>,Option<[Option<()>;4]>>>>("Option<Result<Result<(Tri,bool,),[bool;3]>,Option<[Option<()>;4]>>>"));
    v.push(Ty::of::<Option<Result<[(bool,Tri,);2],Option<((Tri,bool,),Tri,)>>>>("Option<Result<[(bool,Tri,);2],Option<((Tri,bool,),Tri,)>>>"));
    v.push(Ty::of::<Option<Result<[(bool,Tri,);2],Option<Option<[Never;0]>>>>>("Option<Result<[(bool,Tri,);2],Option<Option<[Never;0]>>>>"));
    v.push(Ty::of::<Option<Result<[Option<()>;4],Option<Option<[Never;0]>>>>>("Option<Result<[Option<()>;4],Option<Option<[Never;0]>>>>"));
    v.push(Ty::of::<Option<Result<[Option<()>;4],Option<Result<Option<Never>,Option<bool>>>>>>("Option<Result<[Option<()>;4],Option<Result<Option<Never>,Option<bool>>>>>"));
    v.push(Ty::of::<Option<[Tri;3]>>("Option<[Tri;3]>"));
    v.push(Ty::of::<Result<((Tri,bool,),Tri,),(Result<Never,Never>,bool,)>>("Result<((Tri,bool,),Tri,),(Result<Never,Never>,bool,)>"));
    v.push(Ty::of::<Result<((Tri,bool,),Tri,),Option<[Never;0]>>>("Result<((Tri,bool,),Tri,),Option<[Never;0]>>"));
    v.push(Ty::of::<Result<((Tri,bool,),Tri,),Result<Option<Never>,Option<bool>>>>("Result<((Tri,bool,),Tri,),Result<Option<Never>,Option<bool>>>"));
    v.push(Ty::of::<Result<(),H62>>("Result<(),H62>"));
    v.push(Ty::of::<Result<(),Tri>>("Result<(),Tri>"));
    v.push(Ty::of::<Result<(Option<bool>,[Tri;2],),Result<Option<Never>,Option<bool>>>>("Result<(Option<bool>,[Tri;2],),Result<Option<Never>,Option<bool>>>"));
    v.push(Ty::of::<Result<(Option<bool>,[Tri;2],),[Option<()>;4]>>("Result<(Option<bool>,[Tri;2],),[Option<()>;4]>"));
    v.push(Ty::of::<Result<(Tri,),Option<()>>>("Result<(Tri,),Option<()>>"));
    v.push(Ty::of::<Result<(Tri,),bool>>("Result<(Tri,),bool>"));
    v.push(Ty::of::<Result<(bool,Tri,),Option<Never>>>("Result<(bool,Tri,),Option<Never>>"));
    v.push(Ty::of::<Result<(bool,Tri,),Result<bool,()>>>("Result<(bool,Tri,),Result<bool,()>>"));
    v.push(Ty::of::<Result<D17,D17>>("Result<D17,D17>"));
    v.push(Ty::of::<Result<D17,Two>>("Result<D17,Two>"));
    v.push(Ty::of::<Result<Five,H63>>("Result<Five,H63>"));
    v.push(Ty::of::<Result<Four,D17>>("Result<Four,D17>"));
    v.push(Ty::of::<Result<Four,Two>>("Result<Four,Two>"));
    v.push(Ty::of::<Result<H62,H63>>("Result<H62,H63>"));
    v.push(Ty::of::<Result<H63,D17>>("Result<H63,D17>"));
    v.push(Ty::of::<Result<H63,Wide>>("Result<H63,Wide>"));
    v.push(Ty::of::<Result<Never,(bool,Tri,)>>("Result<Never,(bool,Tri,)>"));
    v.push(Ty::of::<Result<Never,Never>>("Result<Never,Never>"));
    v.push(Ty::of::<Result<Never,Wide>>("Result<Never,Wide>"));
    v.push(Ty::of::<Result<One,Four>>("Result<One,Four>"));
    v.push(Ty::of::<Result<One,bool>>("Result<One,bool>"));
    v.push(Ty::of::<Result<Option<()>,Result<bool,()>>>("Result<Option<()>,Result<bool,()>>"));
    v.push(Ty::of::<Result<Option<()>,[Tri;0]>>("Result<Option<()>,[Tri;0]>"));
    v.push(Ty::of::<Result<Option<Never>,Option<Tri>>>("Result<Option<Never>,Option<Tri>>"));
    v.push(Ty::of::<Result<Option<Result<bool,Tri>>,(Result<Never,Never>,bool,)>>("Result<Option<Result<bool,Tri>>,(Result<Never,Never>,bool,)>"));
    v.push(Ty::of::<Result<Option<Tri>,(Tri,)>>("Result<Option<Tri>,(Tri,)>"));
    v.push(Ty::of::<Result<Option<Tri>,Never>>("Result<Option<Tri>,Never>"));
    v.push(Ty::of::<Result<Option<Tri>,[bool;2]>>("Result<Option<Tri>,[bool;2]>"));
    v.push(Ty::of::<Result<Option<[Never;1]>,(Option<bool>,[Tri;2],)>>("Result<Option<[Never;1]>,(Option<bool>,[Tri;2],)>"));
    v.push(Ty::of::<Result<Option<bool>,()>>("Result<Option<bool>,()>"));
    v.push(Ty::of::<Result<Option<bool>,(Tri,)>>("Result<Option<bool>,(Tri,)>"));
    v.push(Ty::of::<Result<Option<bool>,[Tri;3]>>("Result<Option<bool>,[Tri;3]>"));
    v.push(Ty::of::<Result<Result<(Tri,bool,),[bool;3]>,Option<[Never;1]>>>("Result<Result<(Tri,bool,),[bool;3]>,Option<[Never;1]>>"));
    v.push(Ty::of::<Result<Result<Never,Tri>,Option<Tri>>>("Result<Result<Never,Tri>,Option<Tri>>"));
    v.push(Ty::of::<Result<Result<Option<Never>,Option<bool>>,((Tri,bool,),Tri,)>>("Result<Result<Option<Never>,Option<bool>>,((Tri,bool,),Tri,)>"));
    v.push(Ty::of::<Result<Result<Option<Never>,Option<bool>>,Option<[Never;1]>>>("Result<Result<Option<Never>,Option<bool>>,Option<[Never;1]>>"));
    v.push(Ty::of::<Result<Result<Option<Never>,Option<bool>>,Result<Option<Never>,Option<bool>>>>("Result<Result<Option<Never>,Option<bool>>,Result<Option<Never>,Option<bool>>>"));
    v.push(Ty::of::<Result<Result<Tri,bool>,Tri>>("Result<Result<Tri,bool>,Tri>"));
    v.push(Ty::of::<Result<Result<bool,()>,Option<Never>>>("Result<Result<bool,()>,Option<Never>>"));
    v.push(Ty::of::<Result<Result<bool,()>,Result<bool,()>>>("Result<Result<bool,()>,Result<bool,()>>"));
    v.push(Ty::of::<Result<Tri,(Tri,)>>("Result<Tri,(Tri,)>"));
    v.push(Ty::of::<Result<Tri,H63>>("Result<Tri,H63>"));
    v.push(Ty::of::<Result<Tri,Two>>("Result<Tri,Two>"));
    v.push(Ty::of::<Result<Two,Five>>("Result<Two,Five>"));
    v.push(Ty::of::<Result<Two,Wide>>("Result<Two,Wide>"));
    v.push(Ty::of::<Result<Wide,Never>>("Result<Wide,Never>"));
    v.push(Ty::of::<Result<[(bool,Tri,);2],((Tri,bool,),Tri,)>>("Result<[(bool,Tri,);2],((Tri,bool,),Tri,)>"));
    v.push(Ty::of::<Result<[(bool,Tri,);2],(Option<bool>,[Tri;2],)>>("Result<[(bool,Tri,);2],(Option<bool>,[Tri;2],)>"));
    v.push(Ty::of::<Result<[(bool,Tri,);2],Result<Option<Never>,Option<bool>>>>("Result<[(bool,Tri,);2],Result<Option<Never>,Option<bool>>>"));
    v.push(Ty::of::<Result<[Option<()>;4],[Option<()>;4]>>("Result<[Option<()>;4],[Option<()>;4]>"));
    v.push(Ty::of::<Result<[Tri;0],Result<Tri,bool>>>("Result<[Tri;0],Result<Tri,bool>>"));
    v.push(Ty::of::<Result<[Tri;0],[Tri;0]>>("Result<[Tri;0],[Tri;0]>"));
    v.push(Ty::of::<Result<[Tri;3],(bool,Tri,)>>("Result<[Tri;3],(bool,Tri,)>"));
    v.push(Ty::of::<Result<[Tri;3],Option<Tri>>>("Result<[Tri;3],Option<Tri>>"));
    v.push(Ty::of::<Result<[bool;2],Never>>("Result<[bool;2],Never>"));
    v.push(Ty::of::<Result<[bool;2],Result<Tri,bool>>>("Result<[bool;2],Result<Tri,bool>>"));
    v.push(Ty::of::<Result<[bool;2],[bool;2]>>("Result<[bool;2],[bool;2]>"));
    v.push(Ty::of::<Result<bool,Never>>("Result<bool,Never>"));
    v.push(Ty::of::<Result<bool,Wide>>("Result<bool,Wide>"));
    v.push(Ty::of::<[(((Tri,bool,),Tri,),Result<(Tri,bool,),[bool;3]>,);2]>("[(((Tri,bool,),Tri,),Result<(Tri,bool,),[bool;3]>,);2]"));
    v.push(Ty::of::<[((Result<Never,Never>,bool,),Option<Result<bool,Tri>>,);2]>("[((Result<Never,Never>,bool,),Option<Result<bool,Tri>>,);2]"));
    v.push(Ty::of::<[((Result<Never,Never>,bool,),Result<(Tri,bool,),[bool;3]>,);2]>("[((Result<Never,Never>,bool,),Result<(Tri,bool,),[bool;3]>,);2]"));
    v.push(Ty::of::<[();11]>("[();11]"));
    v.push(Ty::of::<[();19]>("[();19]"));
    v.push(Ty::of::<[();26]>("[();26]"));
    v.push(Ty::of::<[();3]>("[();3]"));
    v.push(Ty::of::<[(Option<Result<bool,Tri>>,(Option<bool>,[Tri;2],),);2]>("[(Option<Result<bool,Tri>>,(Option<bool>,[Tri;2],),);2]"));
    v.push(Ty::of::<[(Option<Result<bool,Tri>>,Option<Result<bool,Tri>>,);2]>("[(Option<Result<bool,Tri>>,Option<Result<bool,Tri>>,);2]"));
    v.push(Ty::of::<[(Option<[Never;0]>,[Option<()>;4],);2]>("[(Option<[Never;0]>,[Option<()>;4],);2]"));
    v.push(Ty::of::<[(Option<[Never;1]>,Option<Result<bool,Tri>>,);2]>("[(Option<[Never;1]>,Option<Result<bool,Tri>>,);2]"));
    v.push(Ty::of::<[(Result<(Tri,bool,),[bool;3]>,(Option<bool>,[Tri;2],),);2]>("[(Result<(Tri,bool,),[bool;3]>,(Option<bool>,[Tri;2],),);2]"));
    v.push(Ty::of::<[(Result<(Tri,bool,),[bool;3]>,[Option<()>;4],);2]>("[(Result<(Tri,bool,),[bool;3]>,[Option<()>;4],);2]"));
    v.push(Ty::of::<[(Result<Option<Never>,Option<bool>>,(Result<Never,Never>,bool,),);2]>("[(Result<Option<Never>,Option<bool>>,(Result<Never,Never>,bool,),);2]"));
    v.push(Ty::of::<[(Tri,);3]>("[(Tri,);3]"));
    v.push(Ty::of::<[([(bool,Tri,);2],Option<[Never;0]>,);2]>("[([(bool,Tri,);2],Option<[Never;0]>,);2]"));
    v.push(Ty::of::<[([Option<()>;4],Result<Option<Never>,Option<bool>>,);2]>("[([Option<()>;4],Result<Option<Never>,Option<bool>>,);2]"));
    v.push(Ty::of::<[([Option<()>;4],[Option<()>;4],);2]>("[([Option<()>;4],[Option<()>;4],);2]"));
    v.push(Ty::of::<[D17;10]>("[D17;10]"));
    v.push(Ty::of::<[D17;3]>("[D17;3]"));
    v.push(Ty::of::<[Five;10]>("[Five;10]"));
    v.push(Ty::of::<[Five;18]>("[Five;18]"));
    v.push(Ty::of::<[Five;25]>("[Five;25]"));
    v.push(Ty::of::<[Five;7]>("[Five;7]"));
    v.push(Ty::of::<[Four;14]>("[Four;14]"));
    v.push(Ty::of::<[Four;21]>("[Four;21]"));
    v.push(Ty::of::<[Four;29]>("[Four;29]"));
    v.push(Ty::of::<[Four;7]>("[Four;7]"));
    v.push(Ty::of::<[Never;10]>("[Never;10]"));
    v.push(Ty::of::<[Never;18]>("[Never;18]"));
    v.push(Ty::of::<[Never;25]>("[Never;25]"));
    v.push(Ty::of::<[Never;32]>("[Never;32]"));
    v.push(Ty::of::<[One;0]>("[One;0]"));
    v.push(Ty::of::<[One;17]>("[One;17]"));
    v.push(Ty::of::<[One;24]>("[One;24]"));
    v.push(Ty::of::<[One;31]>("[One;31]"));
    v.push(Ty::of::<[One;9]>("[One;9]"));
    v.push(Ty::of::<[Option<Never>;3]>("[Option<Never>;3]"));
    v.push(Ty::of::<[Option<[Never;1]>;3]>("[Option<[Never;1]>;3]"));
    v.push(Ty::of::<[Result<Option<Never>,Option<bool>>;3]>("[Result<Option<Never>,Option<bool>>;3]"));
    v.push(Ty::of::<[Result<bool,()>;3]>("[Result<bool,()>;3]"));
    v.push(Ty::of::<[Tri;12]>("[Tri;12]"));
    v.push(Ty::of::<[Tri;1]>("[Tri;1]"));
    v.push(Ty::of::<[Tri;27]>("[Tri;27]"));
    v.push(Ty::of::<[Tri;4]>("[Tri;4]"));
    v.push(Ty::of::<[Two;11]>("[Two;11]"));
    v.push(Ty::of::<[Two;19]>("[Two;19]"));
    v.push(Ty::of::<[Two;26]>("[Two;26]"));
    v.push(Ty::of::<[Two;3]>("[Two;3]"));
    v.push(Ty::of::<[Wide;10]>("[Wide;10]"));
    v.push(Ty::of::<[Wide;18]>("[Wide;18]"));
    v.push(Ty::of::<[Wide;25]>("[Wide;25]"));
    v.push(Ty::of::<[Wide;32]>("[Wide;32]"));
    v.push(Ty::of::<[[Option<()>;4];2]>("[[Option<()>;4];2]"));
    v.push(Ty::of::<[[Tri;3];2]>("[[Tri;3];2]"));
    v.push(Ty::of::<[bool;11]>("[bool;11]"));
    v.push(Ty::of::<[bool;19]>("[bool;19]"));
    v.push(Ty::of::<[bool;26]>("[bool;26]"));
    v.push(Ty::of::<[bool;3]>("[bool;3]"));
}
