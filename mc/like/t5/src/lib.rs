// generated by tools/gen_like.py
use likesut::*;
pub fn all(v: &mut Vec<Ty>) {
    v.push(Ty::of::<(((Tri,bool,),Tri,),((Tri,bool,),Tri,),((Tri,bool,),Tri,),)>("(((Tri,bool,),Tri,),((Tri,bool,),Tri,),((Tri,bool,),Tri,),)"));
    v.push(Ty::of::<((),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),)>("((),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),)"));
    v.push(Ty::of::<((),(),(),(),(),(),(),(),(),(),(),(),(),(),)>("((),(),(),(),(),(),(),(),(),(),(),(),(),(),)"));
    v.push(Ty::of::<((),(),(),(),(),(),(),(),(),(),)>("((),(),(),(),(),(),(),(),(),(),)"));
    v.push(Ty::of::<((),(),(),(),(),(),(),(),(),)>("((),(),(),(),(),(),(),(),(),)"));
    v.push(Ty::of::<((),(),(),Two,)>("((),(),(),Two,)"));
    v.push(Ty::of::<((),(),bool,)>("((),(),bool,)"));
    v.push(Ty::of::<((),(bool,Tri,),)>("((),(bool,Tri,),)"));
    v.push(Ty::of::<((),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),)>("((),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),)"));
    v.push(Ty::of::<((),Four,bool,(),Four,bool,)>("((),Four,bool,(),Four,bool,)"));
    v.push(Ty::of::<((),Never,)>("((),Never,)"));
    v.push(Ty::of::<((),Never,Five,)>("((),Never,Five,)"));
    v.push(Ty::of::<((),One,Five,(),One,)>("((),One,Five,(),One,)"));
    v.push(Ty::of::<((),Result<Never,Tri>,)>("((),Result<Never,Tri>,)"));
    v.push(Ty::of::<((),Tri,Tri,Tri,)>("((),Tri,Tri,Tri,)"));
    v.push(Ty::of::<((),Two,Tri,(),)>("((),Two,Tri,(),)"));
    v.push(Ty::of::<((),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),)>("((),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),)"));
    v.push(Ty::of::<((),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,)>("((),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,)"));
    v.push(Ty::of::<((),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,)>("((),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,)"));
    v.push(Ty::of::<((),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,)>("((),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,)"));
    v.push(Ty::of::<((),Wide,)>("((),Wide,)"));
    v.push(Ty::of::<((),[Tri;0],(),)>("((),[Tri;0],(),)"));
    v.push(Ty::of::<((),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,)>("((),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,)"));
    v.push(Ty::of::<((Option<bool>,[Tri;2],),)>("((Option<bool>,[Tri;2],),)"));
    v.push(Ty::of::<((Option<bool>,[Tri;2],),Option<[Never;0]>,(Option<bool>,[Tri;2],),)>("((Option<bool>,[Tri;2],),Option<[Never;0]>,(Option<bool>,[Tri;2],),)"));
    v.push(Ty::of::<((Option<bool>,[Tri;2],),Result<Option<Never>,Option<bool>>,(Option<bool>,[Tri;2],),)>("((Option<bool>,[Tri;2],),Result<Option<Never>,Option<bool>>,(Option<bool>,[Tri;2],),)"));
    v.push(Ty::of::<((Option<bool>,[Tri;2],),[Option<()>;4],)>("((Option<bool>,[Tri;2],),[Option<()>;4],)"));
    v.push(Ty::of::<((Result<Never,Never>,bool,),Result<Option<Never>,Option<bool>>,)>("((Result<Never,Never>,bool,),Result<Option<Never>,Option<bool>>,)"));
    v.push(Ty::of::<((Result<Never,Never>,bool,),[(bool,Tri,);2],(Result<Never,Never>,bool,),)>("((Result<Never,Never>,bool,),[(bool,Tri,);2],(Result<Never,Never>,bool,),)"));
    v.push(Ty::of::<((Result<Never,Never>,bool,),[Option<()>;4],)>("((Result<Never,Never>,bool,),[Option<()>;4],)"));
    v.push(Ty::of::<((Tri,),Tri,(Tri,),)>("((Tri,),Tri,(Tri,),)"));
    v.push(Ty::of::<((Tri,),[Tri;0],)>("((Tri,),[Tri;0],)"));
    v.push(Ty::of::<((bool,Tri,),(bool,Tri,),(bool,Tri,),)>("((bool,Tri,),(bool,Tri,),(bool,Tri,),)"));
    v.push(Ty::of::<((bool,Tri,),Never,(bool,Tri,),)>("((bool,Tri,),Never,(bool,Tri,),)"));
    v.push(Ty::of::<((bool,Tri,),Option<()>,)>("((bool,Tri,),Option<()>,)"));
    v.push(Ty::of::<((bool,Tri,),Result<bool,()>,)>("((bool,Tri,),Result<bool,()>,)"));
    v.push(Ty::of::<((bool,Tri,),[bool;2],(bool,Tri,),)>("((bool,Tri,),[bool;2],(bool,Tri,),)"));
    v.push(Ty::of::<((bool,Tri,),bool,)>("((bool,Tri,),bool,)"));
    v.push(Ty::of::<()>("()"));
    v.push(Ty::of::<(D17,Five,)>("(D17,Five,)"));
    v.push(Ty::of::<(Five,(),)>("(Five,(),)"));
    v.push(Ty::of::<(Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),)>("(Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),)"));
    v.push(Ty::of::<(Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,)>("(Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,)"));
    v.push(Ty::of::<(Five,(),Tri,)>("(Five,(),Tri,)"));
    v.push(Ty::of::<(Five,)>("(Five,)"));
    v.push(Ty::of::<(Five,Never,Five,)>("(Five,Never,Five,)"));
    v.push(Ty::of::<(Five,Tri,bool,)>("(Five,Tri,bool,)"));
    v.push(Ty::of::<(Five,Wide,)>("(Five,Wide,)"));
    v.push(Ty::of::<(Four,Tri,)>("(Four,Tri,)"));
    v.push(Ty::of::<(Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,)>("(Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,)"));
    v.push(Ty::of::<(Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),)>("(Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),)"));
    v.push(Ty::of::<(Four,bool,(),Four,bool,(),Four,bool,)>("(Four,bool,(),Four,bool,(),Four,bool,)"));
    v.push(Ty::of::<(H62,Two,)>("(H62,Two,)"));
    v.push(Ty::of::<(Never,(),Never,)>("(Never,(),Never,)"));
    v.push(Ty::of::<(Never,Five,)>("(Never,Five,)"));
    v.push(Ty::of::<(Never,Five,bool,)>("(Never,Five,bool,)"));
    v.push(Ty::of::<(Never,Option<Tri>,)>("(Never,Option<Tri>,)"));
    v.push(Ty::of::<(Never,Option<Tri>,Never,)>("(Never,Option<Tri>,Never,)"));
    v.push(Ty::of::<(Never,Tri,Tri,)>("(Never,Tri,Tri,)"));
    v.push(Ty::of::<(Never,bool,)>("(Never,bool,)"));
    v.push(Ty::of::<(Never,bool,Tri,)>("(Never,bool,Tri,)"));
    v.push(Ty::of::<(One,Five,(),One,Five,(),)>("(One,Five,(),One,Five,(),)"));
    v.push(Ty::of::<(One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,)>("(One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,)"));
    v.push(Ty::of::<(One,One,)>("(One,One,)"));
    v.push(Ty::of::<(Option<()>,Option<Never>,)>("(Option<()>,Option<Never>,)"));
    v.push(Ty::of::<(Option<()>,Option<bool>,Option<()>,)>("(Option<()>,Option<bool>,Option<()>,)"));
    v.push(Ty::of::<(Option<()>,Result<Never,Tri>,Option<()>,)>("(Option<()>,Result<Never,Tri>,Option<()>,)"));
    v.push(Ty::of::<(Option<()>,bool,Option<()>,)>("(Option<()>,bool,Option<()>,)"));
    v.push(Ty::of::<(Option<Never>,(),)>("(Option<Never>,(),)"));
    v.push(Ty::of::<(Option<Never>,Result<Never,Tri>,)>("(Option<Never>,Result<Never,Tri>,)"));
    v.push(Ty::of::<(Option<Never>,[Tri;3],)>("(Option<Never>,[Tri;3],)"));
    v.push(Ty::of::<(Option<Result<bool,Tri>>,(Option<bool>,[Tri;2],),)>("(Option<Result<bool,Tri>>,(Option<bool>,[Tri;2],),)"));
    v.push(Ty::of::<(Option<Result<bool,Tri>>,Option<Result<bool,Tri>>,)>("(Option<Result<bool,Tri>>,Option<Result<bool,Tri>>,)"));
    v.push(Ty::of::<(Option<Result<bool,Tri>>,Option<[Never;0]>,)>("(Option<Result<bool,Tri>>,Option<[Never;0]>,)"));
    v.push(Ty::of::<(Option<Tri>,)>("(Option<Tri>,)"));
    v.push(Ty::of::<(Option<Tri>,Option<Tri>,)>("(Option<Tri>,Option<Tri>,)"));
    v.push(Ty::of::<(Option<Tri>,Option<Tri>,Option<Tri>,)>("(Option<Tri>,Option<Tri>,Option<Tri>,)"));
    v.push(Ty::of::<(Option<Tri>,[bool;2],Option<Tri>,)>("(Option<Tri>,[bool;2],Option<Tri>,)"));
    v.push(Ty::of::<(Option<[Never;0]>,Option<Result<bool,Tri>>,Option<[Never;0]>,)>("(Option<[Never;0]>,Option<Result<bool,Tri>>,Option<[Never;0]>,)"));
    v.push(Ty::of::<(Option<[Never;0]>,Option<[Never;1]>,)>("(Option<[Never;0]>,Option<[Never;1]>,)"));
    v.push(Ty::of::<(Option<[Never;0]>,Result<(Tri,bool,),[bool;3]>,)>("(Option<[Never;0]>,Result<(Tri,bool,),[bool;3]>,)"));
    v.push(Ty::of::<(Option<[Never;0]>,Result<(Tri,bool,),[bool;3]>,Option<[Never;0]>,)>("(Option<[Never;0]>,Result<(Tri,bool,),[bool;3]>,Option<[Never;0]>,)"));
    v.push(Ty::of::<(Option<[Never;1]>,((Tri,bool,),Tri,),Option<[Never;1]>,)>("(Option<[Never;1]>,((Tri,bool,),Tri,),Option<[Never;1]>,)"));
    v.push(Ty::of::<(Option<[Never;1]>,Option<[Never;0]>,Option<[Never;1]>,)>("(Option<[Never;1]>,Option<[Never;0]>,Option<[Never;1]>,)"));
    v.push(Ty::of::<(Option<bool>,(bool,Tri,),)>("(Option<bool>,(bool,Tri,),)"));
    v.push(Ty::of::<(Option<bool>,Option<Never>,)>("(Option<bool>,Option<Never>,)"));
    v.push(Ty::of::<(Option<bool>,Option<Never>,Option<bool>,)>("(Option<bool>,Option<Never>,Option<bool>,)"));
    v.push(Ty::of::<(Option<bool>,[Tri;3],Option<bool>,)>("(Option<bool>,[Tri;3],Option<bool>,)"));
    v.push(Ty::of::<(Result<(Tri,bool,),[bool;3]>,(Result<Never,Never>,bool,),Result<(Tri,bool,),[bool;3]>,)>("(Result<(Tri,bool,),[bool;3]>,(Result<Never,Never>,bool,),Result<(Tri,bool,),[bool;3]>,)"));
    v.push(Ty::of::<(Result<(Tri,bool,),[bool;3]>,Option<Result<bool,Tri>>,Result<(Tri,bool,),[bool;3]>,)>("(Result<(Tri,bool,),[bool;3]>,Option<Result<bool,Tri>>,Result<(Tri,bool,),[bool;3]>,)"));
    v.push(Ty::of::<(Result<(Tri,bool,),[bool;3]>,Option<[Never;1]>,)>("(Result<(Tri,bool,),[bool;3]>,Option<[Never;1]>,)"));
    v.push(Ty::of::<(Result<Never,Tri>,)>("(Result<Never,Tri>,)"));
    v.push(Ty::of::<(Result<Never,Tri>,Option<bool>,)>("(Result<Never,Tri>,Option<bool>,)"));
    v.push(Ty::of::<(Result<Never,Tri>,Option<bool>,Result<Never,Tri>,)>("(Result<Never,Tri>,Option<bool>,Result<Never,Tri>,)"));
    v.push(Ty::of::<(Result<Never,Tri>,Result<Tri,bool>,Result<Never,Tri>,)>("(Result<Never,Tri>,Result<Tri,bool>,Result<Never,Tri>,)"));
    v.push(Ty::of::<(Result<Never,Tri>,Result<bool,()>,)>("(Result<Never,Tri>,Result<bool,()>,)"));
    v.push(Ty::of::<(Result<Option<Never>,Option<bool>>,((Tri,bool,),Tri,),Result<Option<Never>,Option<bool>>,)>("(Result<Option<Never>,Option<bool>>,((Tri,bool,),Tri,),Result<Option<Never>,Option<bool>>,)"));
    v.push(Ty::of::<(Result<Option<Never>,Option<bool>>,Option<[Never;1]>,Result<Option<Never>,Option<bool>>,)>("(Result<Option<Never>,Option<bool>>,Option<[Never;1]>,Result<Option<Never>,Option<bool>>,)"));
    v.push(Ty::of::<(Result<Option<Never>,Option<bool>>,[Option<()>;4],)>("(Result<Option<Never>,Option<bool>>,[Option<()>;4],)"));
    v.push(Ty::of::<(Result<Tri,bool>,Option<Tri>,Result<Tri,bool>,)>("(Result<Tri,bool>,Option<Tri>,Result<Tri,bool>,)"));
    v.push(Ty::of::<(Result<Tri,bool>,Result<Tri,bool>,Result<Tri,bool>,)>("(Result<Tri,bool>,Result<Tri,bool>,Result<Tri,bool>,)"));
    v.push(Ty::of::<(Result<Tri,bool>,[Tri;0],)>("(Result<Tri,bool>,[Tri;0],)"));
    v.push(Ty::of::<(Result<bool,()>,(bool,Tri,),)>("(Result<bool,()>,(bool,Tri,),)"));
    v.push(Ty::of::<(Result<bool,()>,(bool,Tri,),Result<bool,()>,)>("(Result<bool,()>,(bool,Tri,),Result<bool,()>,)"));
    v.push(Ty::of::<(Result<bool,()>,Option<Tri>,)>("(Result<bool,()>,Option<Tri>,)"));
    v.push(Ty::of::<(Result<bool,()>,Result<Never,Tri>,)>("(Result<bool,()>,Result<Never,Tri>,)"));
    v.push(Ty::of::<(Result<bool,()>,[Tri;3],Result<bool,()>,)>("(Result<bool,()>,[Tri;3],Result<bool,()>,)"));
    v.push(Ty::of::<(Tri,(),Five,)>("(Tri,(),Five,)"));
    v.push(Ty::of::<(Tri,(),Tri,Two,)>("(Tri,(),Tri,Two,)"));
    v.push(Ty::of::<(Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,)>("(Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,)"));
    v.push(Ty::of::<(Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),)>("(Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),)"));
    v.push(Ty::of::<(Tri,Five,Tri,)>("(Tri,Five,Tri,)"));
    v.push(Ty::of::<(Tri,H62,)>("(Tri,H62,)"));
    v.push(Ty::of::<(Tri,Option<Never>,Tri,)>("(Tri,Option<Never>,Tri,)"));
    v.push(Ty::of::<(Tri,Result<bool,()>,Tri,)>("(Tri,Result<bool,()>,Tri,)"));
    v.push(Ty::of::<(Tri,Tri,Never,)>("(Tri,Tri,Never,)"));
    v.push(Ty::of::<(Tri,Tri,Two,Tri,)>("(Tri,Tri,Two,Tri,)"));
    v.push(Ty::of::<(Tri,Two,)>("(Tri,Two,)"));
    v.push(Ty::of::<(Tri,Two,Two,(),)>("(Tri,Two,Two,(),)"));
    v.push(Ty::of::<(Tri,bool,Never,)>("(Tri,bool,Never,)"));
    v.push(Ty::of::<(Tri,bool,bool,bool,bool,bool,)>("(Tri,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(Tri,bool,bool,bool,bool,bool,bool,bool,)>("(Tri,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(Two,(),Tri,Two,)>("(Two,(),Tri,Two,)"));
    v.push(Ty::of::<(Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),)>("(Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),)"));
    v.push(Ty::of::<(Two,Five,)>("(Two,Five,)"));
    v.push(Ty::of::<(Two,Tri,(),bool,One,)>("(Two,Tri,(),bool,One,)"));
    v.push(Ty::of::<(Two,Tri,Tri,Tri,)>("(Two,Tri,Tri,Tri,)"));
    v.push(Ty::of::<(Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,)>("(Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,)"));
    v.push(Ty::of::<(Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,)>("(Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,)"));
    v.push(Ty::of::<(Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,)>("(Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,)"));
    v.push(Ty::of::<(Two,Two,Tri,(),)>("(Two,Two,Tri,(),)"));
    v.push(Ty::of::<(Two,bool,)>("(Two,bool,)"));
    v.push(Ty::of::<(Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),)>("(Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),)"));
    v.push(Ty::of::<(Wide,Tri,)>("(Wide,Tri,)"));
    v.push(Ty::of::<([(bool,Tri,);2],((Tri,bool,),Tri,),[(bool,Tri,);2],)>("([(bool,Tri,);2],((Tri,bool,),Tri,),[(bool,Tri,);2],)"));
    v.push(Ty::of::<([(bool,Tri,);2],[Option<()>;4],)>("([(bool,Tri,);2],[Option<()>;4],)"));
    v.push(Ty::of::<([(bool,Tri,);2],[Option<()>;4],[(bool,Tri,);2],)>("([(bool,Tri,);2],[Option<()>;4],[(bool,Tri,);2],)"));
    v.push(Ty::of::<([Option<()>;4],(Result<Never,Never>,bool,),[Option<()>;4],)>("([Option<()>;4],(Result<Never,Never>,bool,),[Option<()>;4],)"));
    v.push(Ty::of::<([Option<()>;4],[(bool,Tri,);2],[Option<()>;4],)>("([Option<()>;4],[(bool,Tri,);2],[Option<()>;4],)"));
    v.push(Ty::of::<([Option<()>;4],[Option<()>;4],[Option<()>;4],)>("([Option<()>;4],[Option<()>;4],[Option<()>;4],)"));
    v.push(Ty::of::<([Tri;0],)>("([Tri;0],)"));
    v.push(Ty::of::<([Tri;0],Never,)>("([Tri;0],Never,)"));
    v.push(Ty::of::<([Tri;0],Result<Never,Tri>,)>("([Tri;0],Result<Never,Tri>,)"));
    v.push(Ty::of::<([Tri;0],Result<Tri,bool>,[Tri;0],)>("([Tri;0],Result<Tri,bool>,[Tri;0],)"));
    v.push(Ty::of::<([Tri;0],[bool;2],)>("([Tri;0],[bool;2],)"));
    v.push(Ty::of::<([Tri;3],(),[Tri;3],)>("([Tri;3],(),[Tri;3],)"));
    v.push(Ty::of::<([Tri;3],Result<Tri,bool>,)>("([Tri;3],Result<Tri,bool>,)"));
    v.push(Ty::of::<([Tri;3],Tri,)>("([Tri;3],Tri,)"));
    v.push(Ty::of::<([bool;2],(Tri,),)>("([bool;2],(Tri,),)"));
    v.push(Ty::of::<([bool;2],(bool,Tri,),)>("([bool;2],(bool,Tri,),)"));
    v.push(Ty::of::<([bool;2],Option<Never>,)>("([bool;2],Option<Never>,)"));
    v.push(Ty::of::<([bool;2],Result<bool,()>,)>("([bool;2],Result<bool,()>,)"));
    v.push(Ty::of::<(bool,(),)>("(bool,(),)"));
    v.push(Ty::of::<(bool,(),Never,)>("(bool,(),Never,)"));
    v.push(Ty::of::<(bool,Five,bool,)>("(bool,Five,bool,)"));
    v.push(Ty::of::<(bool,Option<Never>,)>("(bool,Option<Never>,)"));
    v.push(Ty::of::<(bool,Option<Tri>,bool,)>("(bool,Option<Tri>,bool,)"));
    v.push(Ty::of::<(bool,Result<bool,()>,bool,)>("(bool,Result<bool,()>,bool,)"));
    v.push(Ty::of::<(bool,Tri,Tri,)>("(bool,Tri,Tri,)"));
    v.push(Ty::of::<(bool,Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(bool,Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(bool,Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(bool,Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,[bool;2],)>("(bool,[bool;2],)"));
    v.push(Ty::of::<(bool,bool,Never,bool,bool,)>("(bool,bool,Never,bool,bool,)"));
    v.push(Ty::of::<(bool,bool,Tri,)>("(bool,bool,Tri,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,Tri,bool,bool,bool,bool,)>("(bool,bool,bool,bool,Tri,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,Never,bool,bool,bool,bool,)>("(bool,bool,bool,bool,bool,Never,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,Tri,)>("(bool,bool,bool,bool,bool,Tri,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,Tri,bool,)>("(bool,bool,bool,bool,bool,bool,Tri,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,Never,bool,bool,bool,bool,bool,bool,)>("(bool,bool,bool,bool,bool,bool,bool,Never,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Never,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Never,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Never,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Never,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,bool,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,bool,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,)"));
    v.push(Ty::of::<Option<()>>("Option<()>"));
    v.push(Ty::of::<Option<Option<()>>>("Option<Option<()>>"));
    v.push(Ty::of::<Option<Option<Option<()>>>>("Option<Option<Option<()>>>"));
    v.push(Ty::of::<Option<Option<Option<Tri>>>>("Option<Option<Option<Tri>>>"));
    v.push(Ty::of::<Option<Option<[Never;1]>>>("Option<Option<[Never;1]>>"));
    v.push(Ty::of::<Option<Result<((Tri,bool,),Tri,),Option<(Option<bool>,[Tri;2],)>>>>("Option<Result<((Tri,bool,),Tri,),Option<(Option<bool>,[Tri;2],)>>>"));
    v.push(Ty::of::<Option<Result<(Option<bool>,[Tri;2],),Option<(Option<bool>,[Tri;2],)>>>>("Option<Result<(Option<bool>,[Tri;2],),Option<(Option<bool>,[Tri;2],)>>>"));
    v.push(Ty::of::<Option<Result<Option<Result<bool,Tri>>,Option<((Tri,bool,),Tri,)>>>>("Option<Result<Option<Result<bool,Tri>>,Option<((Tri,bool,),Tri,)>>>"));
    v.push(Ty::of::<Option<Result<Option<Result<bool,Tri>>,Option<Result<Option<Never>,Option<bool>>>>>>("Option<Result<Option<Result<bool,Tri>>,Option<Result<Option<Never>,Option<bool>>>>>"));
    v.push(Ty::of::<Option<Result<Option<Result<bool,Tri>>,Option<[(bool,Tri,);2]>>>>("Option<Result<Option<Result<bool,Tri>>,Option<[(bool,Tri,);2]>>>"));
    v.push(Ty::of::<Option<Result<Option<[Never;0]>,Option<Option<[Never;0]>>>>>("Option<Result<Option<[Never;0]>,Option<Option<[Never;0]>>>>"));
    v.push(Ty::of::<Option<Result<Option<[Never;0]>,Option<Result<Option<Never>,Option<bool>>>>>>("Option<Result<Option<[Never;0]>,Option<Result<Option<Never>,Option<bool>>>>>"));
    v.push(Ty::of::<Option<Result<Result<(Tri,bool,),[bool;3]>,Option<Option<Result<bool,Tri>>>>>>("Option<Result<Result<(Tri,bool,),[bool;3]>,Option<Option<Result<bool,Tri>>>>>"));
    v.push(Ty::of::<Option<Result<Result<Option<Never>,Option<bool>>,Option<(Option<bool>,[Tri;2],)>>>>("Option<Result<Result<Option<Never>,Option<bool>>,Option<(Option<bool>,[Tri;2],)>>>"));
    v.push(Ty::of::<Option<Result<[(bool,Tri,);2],Option<Option<[Never;1]>>>>>("Option<Result<[(bool,Tri,);2],Option<Option<[Never;1]>>>>"));
    v.push(Ty::of::<Option<Result<[Option<()>;4],Option<Option<[Never;1]>>>>>("Option<Result<[Option<()>;4],Option<Option<[Never;1]>>>>"));
    v.push(Ty::of::<Option<[(bool,Tri,);2]>>("Option<[(bool,Tri,);2]>"));
    v.push(Ty::of::<Option<[bool;2]>>("Option<[bool;2]>"));
    v.push(Ty::of::<Result<((Tri,bool,),Tri,),(Option<bool>,[Tri;2],)>>("Result<((Tri,bool,),Tri,),(Option<bool>,[Tri;2],)>"));
    v.push(Ty::of::<Result<((Tri,bool,),Tri,),Option<[Never;1]>>>("Result<((Tri,bool,),Tri,),Option<[Never;1]>>"));
    v.push(Ty::of::<Result<((Tri,bool,),Tri,),Result<(Tri,bool,),[bool;3]>>>("Result<((Tri,bool,),Tri,),Result<(Tri,bool,),[bool;3]>>"));
    v.push(Ty::of::<Result<(),H63>>("Result<(),H63>"));
    v.push(Ty::of::<Result<(),Two>>("Result<(),Two>"));
    v.push(Ty::of::<Result<(Option<bool>,[Tri;2],),(Result<Never,Never>,bool,)>>("Result<(Option<bool>,[Tri;2],),(Result<Never,Never>,bool,)>"));
    v.push(Ty::of::<Result<(Result<Never,Never>,bool,),Option<[Never;0]>>>("Result<(Result<Never,Never>,bool,),Option<[Never;0]>>"));
    v.push(Ty::of::<Result<(Tri,),(Tri,)>>("Result<(Tri,),(Tri,)>"));
    v.push(Ty::of::<Result<(Tri,),Option<Never>>>("Result<(Tri,),Option<Never>>"));
    v.push(Ty::of::<Result<(bool,Tri,),Option<Tri>>>("Result<(bool,Tri,),Option<Tri>>"));
    v.push(Ty::of::<Result<D17,Five>>("Result<D17,Five>"));
    v.push(Ty::of::<Result<D17,Wide>>("Result<D17,Wide>"));
    v.push(Ty::of::<Result<Five,Never>>("Result<Five,Never>"));
    v.push(Ty::of::<Result<Four,Five>>("Result<Four,Five>"));
    v.push(Ty::of::<Result<Four,Wide>>("Result<Four,Wide>"));
    v.push(Ty::of::<Result<H62,Never>>("Result<H62,Never>"));
    v.push(Ty::of::<Result<H63,Five>>("Result<H63,Five>"));
    v.push(Ty::of::<Result<H63,bool>>("Result<H63,bool>"));
    v.push(Ty::of::<Result<Never,(Tri,)>>("Result<Never,(Tri,)>"));
    v.push(Ty::of::<Result<Never,One>>("Result<Never,One>"));
    v.push(Ty::of::<Result<Never,[Tri;0]>>("Result<Never,[Tri;0]>"));
    v.push(Ty::of::<Result<One,H62>>("Result<One,H62>"));
    v.push(Ty::of::<Result<Option<()>,()>>("Result<Option<()>,()>"));
    v.push(Ty::of::<Result<Option<()>,(bool,Tri,)>>("Result<Option<()>,(bool,Tri,)>"));
    v.push(Ty::of::<Result<Option<()>,[Tri;3]>>("Result<Option<()>,[Tri;3]>"));
    v.push(Ty::of::<Result<Option<Never>,(Tri,)>>("Result<Option<Never>,(Tri,)>"));
    v.push(Ty::of::<Result<Option<Never>,Option<bool>>>("Result<Option<Never>,Option<bool>>"));
    v.push(Ty::of::<Result<Option<Result<bool,Tri>>,(Option<bool>,[Tri;2],)>>("Result<Option<Result<bool,Tri>>,(Option<bool>,[Tri;2],)>"));
    v.push(Ty::of::<Result<Option<Result<bool,Tri>>,Result<(Tri,bool,),[bool;3]>>>("Result<Option<Result<bool,Tri>>,Result<(Tri,bool,),[bool;3]>>"));
    v.push(Ty::of::<Result<Option<Tri>,Option<()>>>("Result<Option<Tri>,Option<()>>"));
    v.push(Ty::of::<Result<Option<Tri>,Result<Never,Tri>>>("Result<Option<Tri>,Result<Never,Tri>>"));
    v.push(Ty::of::<Result<Option<Tri>,bool>>("Result<Option<Tri>,bool>"));
    v.push(Ty::of::<Result<Option<[Never;1]>,[(bool,Tri,);2]>>("Result<Option<[Never;1]>,[(bool,Tri,);2]>"));
    v.push(Ty::of::<Result<Option<bool>,Never>>("Result<Option<bool>,Never>"));
    v.push(Ty::of::<Result<Option<bool>,Result<Never,Tri>>>("Result<Option<bool>,Result<Never,Tri>>"));
    v.push(Ty::of::<Result<Option<bool>,[bool;2]>>("Result<Option<bool>,[bool;2]>"));
    v.push(Ty::of::<Result<Result<(Tri,bool,),[bool;3]>,[Option<()>;4]>>("Result<Result<(Tri,bool,),[bool;3]>,[Option<()>;4]>"));
    v.push(Ty::of::<Result<Result<Never,Tri>,Option<bool>>>("Result<Result<Never,Tri>,Option<bool>>"));
    v.push(Ty::of::<Result<Result<Option<Never>,Option<bool>>,[Option<()>;4]>>("Result<Result<Option<Never>,Option<bool>>,[Option<()>;4]>"));
    v.push(Ty::of::<Result<Result<Tri,bool>,(Tri,)>>("Result<Result<Tri,bool>,(Tri,)>"));
    v.push(Ty::of::<Result<Result<Tri,bool>,[Tri;0]>>("Result<Result<Tri,bool>,[Tri;0]>"));
    v.push(Ty::of::<Result<Result<bool,()>,Option<Tri>>>("Result<Result<bool,()>,Option<Tri>>"));
    v.push(Ty::of::<Result<Tri,(bool,Tri,)>>("Result<Tri,(bool,Tri,)>"));
    v.push(Ty::of::<Result<Tri,Never>>("Result<Tri,Never>"));
    v.push(Ty::of::<Result<Tri,Result<Never,Tri>>>("Result<Tri,Result<Never,Tri>>"));
    v.push(Ty::of::<Result<Tri,Wide>>("Result<Tri,Wide>"));
    v.push(Ty::of::<Result<Two,Four>>("Result<Two,Four>"));
    v.push(Ty::of::<Result<Two,bool>>("Result<Two,bool>"));
    v.push(Ty::of::<Result<Wide,One>>("Result<Wide,One>"));
    v.push(Ty::of::<Result<[(bool,Tri,);2],(Result<Never,Never>,bool,)>>("Result<[(bool,Tri,);2],(Result<Never,Never>,bool,)>"));
    v.push(Ty::of::<Result<[(bool,Tri,);2],[(bool,Tri,);2]>>("Result<[(bool,Tri,);2],[(bool,Tri,);2]>"));
    v.push(Ty::of::<Result<[Option<()>;4],(Result<Never,Never>,bool,)>>("Result<[Option<()>;4],(Result<Never,Never>,bool,)>"));
    v.push(Ty::of::<Result<[Tri;0],()>>("Result<[Tri;0],()>"));
    v.push(Ty::of::<Result<[Tri;0],Result<bool,()>>>("Result<[Tri;0],Result<bool,()>>"));
    v.push(Ty::of::<Result<[Tri;0],[Tri;3]>>("Result<[Tri;0],[Tri;3]>"));
    v.push(Ty::of::<Result<[Tri;3],Option<bool>>>("Result<[Tri;3],Option<bool>>"));
    v.push(Ty::of::<Result<[bool;2],(bool,Tri,)>>("Result<[bool;2],(bool,Tri,)>"));
    v.push(Ty::of::<Result<[bool;2],Option<()>>>("Result<[bool;2],Option<()>>"));
    v.push(Ty::of::<Result<[bool;2],Result<bool,()>>>("Result<[bool;2],Result<bool,()>>"));
    v.push(Ty::of::<Result<[bool;2],bool>>("Result<[bool;2],bool>"));
    v.push(Ty::of::<Result<bool,One>>("Result<bool,One>"));
    v.push(Ty::of::<Result<bool,[Tri;0]>>("Result<bool,[Tri;0]>"));
    v.push(Ty::of::<[(((Tri,bool,),Tri,),Option<Result<bool,Tri>>,);2]>("[(((Tri,bool,),Tri,),Option<Result<bool,Tri>>,);2]"));
    v.push(Ty::of::<[((Result<Never,Never>,bool,),((Tri,bool,),Tri,),);2]>("[((Result<Never,Never>,bool,),((Tri,bool,),Tri,),);2]"));
    v.push(Ty::of::<[((Result<Never,Never>,bool,),Result<Option<Never>,Option<bool>>,);2]>("[((Result<Never,Never>,bool,),Result<Option<Never>,Option<bool>>,);2]"));
    v.push(Ty::of::<[();12]>("[();12]"));
    v.push(Ty::of::<[();1]>("[();1]"));
    v.push(Ty::of::<[();27]>("[();27]"));
    v.push(Ty::of::<[();4]>("[();4]"));
    v.push(Ty::of::<[(Option<Result<bool,Tri>>,Result<Option<Never>,Option<bool>>,);2]>("[(Option<Result<bool,Tri>>,Result<Option<Never>,Option<bool>>,);2]"));
    v.push(Ty::of::<[(Option<Result<bool,Tri>>,[(bool,Tri,);2],);2]>("[(Option<Result<bool,Tri>>,[(bool,Tri,);2],);2]"));
    v.push(Ty::of::<[(Option<[Never;1]>,Option<[Never;0]>,);2]>("[(Option<[Never;1]>,Option<[Never;0]>,);2]"));
    v.push(Ty::of::<[(Option<[Never;1]>,Result<Option<Never>,Option<bool>>,);2]>("[(Option<[Never;1]>,Result<Option<Never>,Option<bool>>,);2]"));
    v.push(Ty::of::<[(Result<(Tri,bool,),[bool;3]>,(Result<Never,Never>,bool,),);2]>("[(Result<(Tri,bool,),[bool;3]>,(Result<Never,Never>,bool,),);2]"));
    v.push(Ty::of::<[(Result<(Tri,bool,),[bool;3]>,[(bool,Tri,);2],);2]>("[(Result<(Tri,bool,),[bool;3]>,[(bool,Tri,);2],);2]"));
    v.push(Ty::of::<[(Result<Option<Never>,Option<bool>>,(Option<bool>,[Tri;2],),);2]>("[(Result<Option<Never>,Option<bool>>,(Option<bool>,[Tri;2],),);2]"));
    v.push(Ty::of::<[(Result<Option<Never>,Option<bool>>,Result<(Tri,bool,),[bool;3]>,);2]>("[(Result<Option<Never>,Option<bool>>,Result<(Tri,bool,),[bool;3]>,);2]"));
    v.push(Ty::of::<[([(bool,Tri,);2],Option<[Never;1]>,);2]>("[([(bool,Tri,);2],Option<[Never;1]>,);2]"));
    v.push(Ty::of::<[(bool,Tri,);0]>("[(bool,Tri,);0]"));
    v.push(Ty::of::<[D17;11]>("[D17;11]"));
    v.push(Ty::of::<[D17;4]>("[D17;4]"));
    v.push(Ty::of::<[Five;11]>("[Five;11]"));
    v.push(Ty::of::<[Five;19]>("[Five;19]"));
    v.push(Ty::of::<[Five;26]>("[Five;26]"));
    v.push(Ty::of::<[Five;8]>("[Five;8]"));
    v.push(Ty::of::<[Four;15]>("[Four;15]"));
    v.push(Ty::of::<[Four;22]>("[Four;22]"));
    v.push(Ty::of::<[Four;2]>("[Four;2]"));
    v.push(Ty::of::<[Four;8]>("[Four;8]"));
    v.push(Ty::of::<[Never;11]>("[Never;11]"));
    v.push(Ty::of::<[Never;19]>("[Never;19]"));
    v.push(Ty::of::<[Never;26]>("[Never;26]"));
    v.push(Ty::of::<[Never;3]>("[Never;3]"));
    v.push(Ty::of::<[One;10]>("[One;10]"));
    v.push(Ty::of::<[One;18]>("[One;18]"));
    v.push(Ty::of::<[One;25]>("[One;25]"));
    v.push(Ty::of::<[One;32]>("[One;32]"));
    v.push(Ty::of::<[Option<()>;0]>("[Option<()>;0]"));
    v.push(Ty::of::<[Option<Result<bool,Tri>>;2]>("[Option<Result<bool,Tri>>;2]"));
    v.push(Ty::of::<[Option<Tri>;0]>("[Option<Tri>;0]"));
    v.push(Ty::of::<[Option<bool>;0]>("[Option<bool>;0]"));
    v.push(Ty::of::<[Result<(Tri,bool,),[bool;3]>;2]>("[Result<(Tri,bool,),[bool;3]>;2]"));
    v.push(Ty::of::<[Result<Tri,bool>;0]>("[Result<Tri,bool>;0]"));
    v.push(Ty::of::<[Tri;13]>("[Tri;13]"));
    v.push(Ty::of::<[Tri;20]>("[Tri;20]"));
    v.push(Ty::of::<[Tri;28]>("[Tri;28]"));
    v.push(Ty::of::<[Tri;5]>("[Tri;5]"));
    v.push(Ty::of::<[Two;12]>("[Two;12]"));
    v.push(Ty::of::<[Two;1]>("[Two;1]"));
    v.push(Ty::of::<[Two;27]>("[Two;27]"));
    v.push(Ty::of::<[Two;4]>("[Two;4]"));
    v.push(Ty::of::<[Wide;11]>("[Wide;11]"));
    v.push(Ty::of::<[Wide;19]>("[Wide;19]"));
    v.push(Ty::of::<[Wide;26]>("[Wide;26]"));
    v.push(Ty::of::<[Wide;3]>("[Wide;3]"));
    v.push(Ty::of::<[[Option<()>;4];3]>("[[Option<()>;4];3]"));
    v.push(Ty::of::<[[Tri;3];3]>("[[Tri;3];3]"));
    v.push(Ty::of::<[bool;12]>("[bool;12]"));
    v.push(Ty::of::<[bool;1]>("[bool;1]"));
    v.push(Ty::of::<[bool;27]>("[bool;27]"));
    v.push(Ty::of::<[bool;4]>("[bool;4]"));
}
